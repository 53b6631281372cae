@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_codegen /repo/crates/brack-codegen/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/asttree.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/calls.rs
@include ../lib/plugfns.vx
@include ../lib/plugcmds.vx
@include ../lib/plughooks.vx
@include ../lib/astfns.vx
@prelude
// what a command yields and which calls that takes: some function of the command and the registry (given in C13)
pub uninterp spec fn command(a: AST, w: W) -> R;
pub open spec fn hooked(h: Hk, t: Seq<char>, w: W) -> R {
  let i = In::Values(seq![V::Text(t)]);
  R { w: hook_called(w, h, i), r: match hook_said(w, h, i) { None => Res::Fail, Some(None) => Res::Done(t), Some(Some(s)) => Res::Done(s) } }
}
pub open spec fn holds(k: N, c: AST) -> bool { c is Expr || c is Curly || c is Square || c is Text || k is Document && c is Stmt }
pub open spec fn hook_of(a: AST) -> Hk { match a { AST::Document(_) => Hk::Document, AST::Stmt(_) => Hk::Stmt, _ => Hk::Expr } }
pub open spec fn gen(a: AST, w: W) -> R decreases a, 0nat via gen_dec {
  match a {
    AST::Text(_) => match aval(a) { Some(v) => hooked(Hk::Text, v, w), None => R { w, r: Res::Open } },
    AST::Curly(_) | AST::Square(_) => command(a, w),
    AST::Document(_) | AST::Stmt(_) | AST::Expr(_) => { let g = gens(akids(a), akids(a).len(), w, ak(a)); match g.r { Res::Done(t) => hooked(hook_of(a), t, g.w), _ => g } },
    _ => R { w, r: Res::Open },
  }
}
// the outputs of the first m children of a node of kind k, one after the other
pub open spec fn gens(v: Seq<AST>, m: nat, w: W, k: N) -> R decreases v, m {
  if m == 0 || m > v.len() { R { w, r: Res::Done(Seq::empty()) } } else {
    let g = gens(v, (m - 1) as nat, w, k);
    match g.r { Res::Done(t) => if holds(k, v[m - 1]) { let x = gen(v[m - 1], g.w); match x.r { Res::Done(s) => R { w: x.w, r: Res::Done(t + s) }, _ => x } } else { R { w: g.w, r: Res::Open } }, _ => g }
  }
}
#[via_fn] proof fn gen_dec(a: AST, w: W) { if ainner(a) { lemma_asmaller(a); } }
// a child that fails ends it
pub proof fn lemma_stuck(v: Seq<AST>, m: nat, n: nat, w: W, k: N) requires m <= n <= v.len(), !(gens(v, m, w, k).r is Done) ensures gens(v, n, w, k) == gens(v, m, w, k) decreases n { if m < n { lemma_stuck(v, m, (n - 1) as nat, w, k); } }
pub proof fn lemma_next(v: Seq<AST>, m: nat, w: W, k: N) requires 0 < m <= v.len()
  ensures !(gens(v, m, w, k).r is Done) ==> gens(v, v.len(), w, k) == gens(v, m, w, k),
    gens(v, (m - 1) as nat, w, k).r is Done ==> gens(v, m, w, k) == ({ let g = gens(v, (m - 1) as nat, w, k); let t = g.r->Done_0; if holds(k, v[m - 1]) { let x = gen(v[m - 1], g.w); match x.r { Res::Done(s) => R { w: x.w, r: Res::Done(t + s) }, _ => x } } else { R { w: g.w, r: Res::Open } } }),
{ if !(gens(v, m, w, k).r is Done) { lemma_stuck(v, m, v.len(), w, k); } }
pub open spec fn so_far(v: Seq<AST>, m: nat, w0: W, k: N, w: W, t: Seq<char>) -> bool { let g = gens(v, m, w0, k); gens(v, v.len(), w0, k).r is Open || g.w == w && g.r is Done && g.r->Done_0 =~= t }
@fn brack_codegen::text::generate
  requires $0 is Text
  ensures as_said(gen(*$0, world(*old($1))), world(*final($1)), r)
@fn brack_codegen::curly::generate external
  requires $0 is Curly
  ensures as_said(command(*$0, world(*old($1))), world(*final($1)), r)
@fn brack_codegen::square::generate external
  requires $0 is Square
  ensures as_said(command(*$0, world(*old($1))), world(*final($1)), r)
@fn brack_codegen::expr::generate
  requires $0 is Expr
  ensures as_said(gen(*$0, world(*old($1))), world(*final($1)), r)
  decreases *$0
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$0), $0 is Expr,
    so_far(vx_s0@, vx_i0 as nat, world(*old($1)), N::Expr, world(*$1), result@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { reveal_with_fuel(gen, 2); lemma_next(vx_s0@, vx_i0 as nat, world(*old($1)), N::Expr); lemma_asmall(*$0, vx_i0 - 1); }
@fn brack_codegen::stmt::generate
  requires $0 is Stmt
  ensures as_said(gen(*$0, world(*old($1))), world(*final($1)), r)
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$0), $0 is Stmt,
    so_far(vx_s0@, vx_i0 as nat, world(*old($1)), N::Stmt, world(*$1), result@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { reveal_with_fuel(gen, 2); lemma_next(vx_s0@, vx_i0 as nat, world(*old($1)), N::Stmt); lemma_asmall(*$0, vx_i0 - 1); }
@fn brack_codegen::generate::generate
  ensures $0 is Document ==> as_said(gen(*$0, world(*old($1))), world(*final($1)), r)
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$0), $0 is Document,
    so_far(vx_s0@, vx_i0 as nat, world(*old($1)), N::Document, world(*$1), result@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { reveal_with_fuel(gen, 2); lemma_next(vx_s0@, vx_i0 as nat, world(*old($1)), N::Document); lemma_asmall(*$0, vx_i0 - 1); }
