@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_expander /repo/crates/brack-expander/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/asttree.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/calls.rs
@include ../lib/fulltree.rs
@include ../lib/plugfns.vx
@include ../lib/plugmacro.vx
@include ../lib/astfns.vx
@prelude
pub enum X { Tree(T), Fail, Open }
pub struct E { pub w: W, pub r: X }
pub enum Xs { Trees(Seq<T>), Fail, Open }
pub struct Es { pub w: W, pub r: Xs }
// how many of the first m children are of kind k; the value of the last of them
pub open spec fn many(v: Seq<AST>, m: nat, k: N) -> nat decreases m { if m == 0 || m > v.len() { 0 } else { many(v, (m - 1) as nat, k) + if ak(v[m - 1]) == k { 1nat } else { 0 } } }
pub open spec fn last_of(v: Seq<AST>, m: nat, k: N) -> Option<Seq<char>> decreases m { if m == 0 || m > v.len() { None } else if ak(v[m - 1]) == k { aval(v[m - 1]) } else { last_of(v, (m - 1) as nat, k) } }
pub open spec fn sole(v: Seq<AST>, k: N) -> Option<Seq<char>> { if many(v, v.len(), k) == 1 { last_of(v, v.len(), k) } else { None } }
pub proof fn lemma_sole(v: Seq<AST>, m: nat, n: nat, k: N) requires 0 < m <= n <= v.len(), ak(v[m - 1]) == k ensures many(v, n, k) >= 1, many(v, n, k) == 1 ==> last_of(v, n, k) == aval(v[m - 1]) decreases n { if m < n { lemma_sole(v, m, (n - 1) as nat, k); } }
pub open spec fn macro_call(all: AST, a: AST, w: W) -> E {
  match (sole(akids(a), N::Module), sole(akids(a), N::Ident)) {
    (Some(m), Some(c)) => { let i = In::Macro(all, aid(a)); E { w: called(w, m, c, Type::TAST, i), r: match said::<Json<AST>>(w, m, c, Type::TAST, i) { Some(Json(t)) => X::Tree(tree(t)), None => X::Fail } } },
    _ => E { w, r: X::Open },
  }
}
pub open spec fn expand(all: AST, a: AST, w: W) -> E decreases a, 0nat via expand_dec {
  if !ainner(a) { E { w, r: X::Tree(tree(a)) } } else {
    let g = expands(all, akids(a), akids(a).len(), w);
    E { w: g.w, r: match g.r { Xs::Trees(t) => X::Tree(T::Node(ak(a), mark(a), t)), Xs::Fail => X::Fail, Xs::Open => X::Open } }
  }
}
pub open spec fn child(all: AST, c: AST, w: W) -> E decreases c, 1nat { if c is Angle { macro_call(all, c, w) } else { expand(all, c, w) } }
pub open spec fn step(g: Es, x: E) -> Es { Es { w: x.w, r: match x.r { X::Tree(t) => Xs::Trees(g.r->Trees_0.push(t)), X::Fail => Xs::Fail, X::Open => Xs::Open } } }
pub open spec fn expands(all: AST, v: Seq<AST>, m: nat, w: W) -> Es decreases v, m {
  if m == 0 || m > v.len() { Es { w, r: Xs::Trees(Seq::empty()) } } else { let g = expands(all, v, (m - 1) as nat, w); if g.r is Trees { step(g, child(all, v[m - 1], g.w)) } else { g } }
}
#[via_fn] proof fn expand_dec(all: AST, a: AST, w: W) { if ainner(a) { lemma_asmaller(a); } }
pub proof fn lemma_stuck(all: AST, v: Seq<AST>, m: nat, n: nat, w: W) requires m <= n <= v.len(), !(expands(all, v, m, w).r is Trees) ensures expands(all, v, n, w) == expands(all, v, m, w) decreases n { if m < n { lemma_stuck(all, v, m, (n - 1) as nat, w); } }
pub proof fn lemma_next(all: AST, v: Seq<AST>, m: nat, w: W) requires 0 < m <= v.len()
  ensures !(expands(all, v, m, w).r is Trees) ==> expands(all, v, v.len(), w) == expands(all, v, m, w),
    expands(all, v, (m - 1) as nat, w).r is Trees ==> expands(all, v, m, w) == step(expands(all, v, (m - 1) as nat, w), child(all, v[m - 1], expands(all, v, (m - 1) as nat, w).w))
{ if !(expands(all, v, m, w).r is Trees) { lemma_stuck(all, v, m, v.len(), w); } }
pub open spec fn as_expanded(g: E, w: W, r: Result<AST>) -> bool { match g.r { X::Tree(t) => r is Ok && tree(r->Ok_0) == t && w == g.w, X::Fail => r is Err && part(w, g.w), X::Open => true } }
pub open spec fn so_far(all: AST, v: Seq<AST>, m: nat, w0: W, w: W, c: Seq<AST>) -> bool { let g = expands(all, v, m, w0); expands(all, v, v.len(), w0).r is Open || g.w == w && g.r is Trees && g.r->Trees_0 =~= treesv(c) }
// a tree without macro calls comes out unchanged, and nothing is called
pub open spec fn calls_none(a: AST) -> bool decreases a, 0nat via none_dec { !(a is Angle) && (ainner(a) ==> nones(akids(a), akids(a).len())) }
pub open spec fn nones(v: Seq<AST>, m: nat) -> bool decreases v, m { m == 0 || m > v.len() || nones(v, (m - 1) as nat) && calls_none(v[m - 1]) }
#[via_fn] proof fn none_dec(a: AST) { if ainner(a) { lemma_asmaller(a); } }
pub proof fn lemma_unchanged(all: AST, a: AST, w: W) requires calls_none(a) ensures expand(all, a, w) == (E { w, r: X::Tree(tree(a)) }) decreases a, 0nat
{ if ainner(a) { lemma_asmaller(a); lemma_unchanged_kids(all, akids(a), akids(a).len(), w); } }
pub proof fn lemma_unchanged_kids(all: AST, v: Seq<AST>, m: nat, w: W) requires nones(v, m), m <= v.len() ensures expands(all, v, m, w) == (Es { w, r: Xs::Trees(trees(v, m)) }) decreases v, m
{ reveal_with_fuel(expand, 2); reveal_with_fuel(calls_none, 2); if m > 0 { lemma_unchanged_kids(all, v, (m - 1) as nat, w); lemma_unchanged(all, v[m - 1], w); lemma_next(all, v, m, w); assert(!(v[m - 1] is Angle)); assert(trees(v, m) == trees(v, (m - 1) as nat).push(tree(v[m - 1]))); } else { assert(trees(v, m) == Seq::<T>::empty()); assert(expands(all, v, m, w).r->Trees_0 == Seq::<T>::empty()); } }
@fn brack_expander::expand::expand_angle
  requires $1 is Angle
  ensures as_expanded(macro_call(*$0, *$1, world(*old($2))), world(*final($2)), r)
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$1), $1 is Angle, world(*$2) == world(*old($2)),
    many(vx_s0@, vx_i0 as nat, N::Module) > 0 ==> last_of(vx_s0@, vx_i0 as nat, N::Module) == Some(module_name@),
    many(vx_s0@, vx_i0 as nat, N::Ident) > 0 ==> last_of(vx_s0@, vx_i0 as nat, N::Ident) == Some(ident_name@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { if ak(*child) is Module { lemma_sole(vx_s0@, vx_i0 as nat, vx_s0@.len(), N::Module); } if ak(*child) is Ident { lemma_sole(vx_s0@, vx_i0 as nat, vx_s0@.len(), N::Ident); } }
@fn brack_expander::expand::expand_other
  ensures as_expanded(expand(*$0, *$1, world(*old($2))), world(*final($2)), r)
  decreases *$1
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$1), ainner(*$1), so_far(*$0, vx_s0@, vx_i0 as nat, world(*old($2)), world(*$2), children@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { reveal_with_fuel(expand, 2); lemma_next(*$0, vx_s0@, vx_i0 as nat, world(*old($2))); lemma_asmall(*$1, vx_i0 - 1); }
@fn brack_expander::expand::expander
  ensures !($0 is Angle) ==> as_expanded(expand(*$0, *$0, world(*old($1))), world(*final($1)), r),
    calls_none(*$0) ==> r is Ok && tree(r->Ok_0) == tree(*$0) && world(*final($1)) == world(*old($1)),
@hook entry
  proof { if calls_none(*$0) { lemma_unchanged(*$0, *$0, world(*$1)); } }
