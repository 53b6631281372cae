@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_codegen /repo/crates/brack-codegen/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/asttree.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/calls.rs
@include ../lib/plugfns.vx
@include ../lib/plugtypes.vx
@include ../lib/plugcmds.vx
@include ../lib/astfns.vx
@prelude
// what a text or an expression yields and which calls that takes: some function of the node and the registry (given in C12)
pub uninterp spec fn other(a: AST, w: W) -> R;
pub open spec fn required(t: Type) -> bool { !(t is TOption || t is TArray) }
pub open spec fn pt(p: Seq<(String, Type)>, i: int) -> Type { p[i].1 }
// the i-th parameter takes the i-th argument; an array takes it and all that follow
pub open spec fn takes(t: Type, args: Seq<Seq<char>>, i: int) -> V {
  if t is TOption { V::Opt(if i < args.len() { Some(args[i]) } else { None }) } else if t is TArray { V::Array(if i < args.len() { args.skip(i) } else { Seq::empty() }) } else { V::Text(args[i]) }
}
pub open spec fn taken(p: Seq<(String, Type)>, args: Seq<Seq<char>>, m: int) -> Seq<V> { Seq::new(m as nat, |i: int| takes(pt(p, i), args, i)) }
// one of the first m parameters needs an argument that is not there
#[verifier::opaque] pub open spec fn lacksm(p: Seq<(String, Type)>, n: nat, m: int) -> bool { exists|i: int| n <= i < m && required(#[trigger] pt(p, i)) }
pub open spec fn lacks(p: Seq<(String, Type)>, n: nat) -> bool { lacksm(p, n, p.len() as int) }
pub proof fn lemma_lack(p: Seq<(String, Type)>, n: nat, i: int) requires 0 <= i < p.len() ensures !lacksm(p, n, 0), lacksm(p, n, i + 1) == (lacksm(p, n, i) || i >= n && required(pt(p, i))), lacksm(p, n, i + 1) ==> lacks(p, n) { reveal(lacksm); assert(required(pt(p, i)) == required(pt(p, i))); }
#[verifier::opaque] pub open spec fn arrayed(p: Seq<(String, Type)>) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] pt(p, i) is TArray }
pub open spec fn mismatch(p: Seq<(String, Type)>, n: nat) -> bool { lacks(p, n) || n > p.len() && !arrayed(p) }
pub open spec fn nrequired(v: Seq<Type>, m: nat) -> nat decreases m { if m == 0 || m > v.len() { 0 } else { nrequired(v, (m - 1) as nat) + if required(v[m - 1]) { 1nat } else { 0 } } }
pub open spec fn hasarray(v: Seq<Type>, m: nat) -> bool decreases m { if m == 0 || m > v.len() { false } else { hasarray(v, (m - 1) as nat) || v[m - 1] is TArray } }
pub proof fn lemma_lacks(p: Seq<(String, Type)>, v: Seq<Type>, n: nat)
  requires v.len() == p.len(), forall|i: int| 0 <= i < p.len() ==> v[i] == #[trigger] pt(p, i)
  ensures nrequired(v, v.len()) > n ==> lacks(p, n), hasarray(v, v.len()) == arrayed(p)
{
  lemma_required(v, n, v.len());
  if nrequired(v, v.len()) > n { let i = choose|i: int| n <= i < v.len() && required(#[trigger] v[i]); assert(required(pt(p, i))); reveal(lacksm); }
  lemma_array(v, v.len());
  reveal(arrayed);
  if hasarray(v, v.len()) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] is TArray; assert(pt(p, i) is TArray); }
}
pub proof fn lemma_required(v: Seq<Type>, n: nat, m: nat) requires m <= v.len() ensures nrequired(v, m) > n ==> exists|i: int| n <= i < m && required(#[trigger] v[i]), nrequired(v, m) <= m decreases m
{ if m > 0 { lemma_required(v, n, (m - 1) as nat); if nrequired(v, m) > n { if required(v[m - 1]) && m - 1 >= n { } else if nrequired(v, (m - 1) as nat) > n { let i = choose|i: int| n <= i < m - 1 && required(#[trigger] v[i]); assert(required(v[i]) && i < m); } } } }
pub proof fn lemma_array(v: Seq<Type>, m: nat) requires m <= v.len() ensures hasarray(v, m) <==> exists|i: int| 0 <= i < m && #[trigger] v[i] is TArray decreases m
{ if m > 0 { lemma_array(v, (m - 1) as nat); if hasarray(v, m) { if v[m - 1] is TArray { } else { let i = choose|i: int| 0 <= i < m - 1 && #[trigger] v[i] is TArray; assert(v[i] is TArray && i < m); } } } }
pub proof fn lemma_lack0(p: Seq<(String, Type)>, n: nat) ensures !lacksm(p, n, 0) { reveal(lacksm); }
// the outputs of the arguments
pub struct Outs { pub w: W, pub r: Res, pub a: Seq<Seq<char>> }
pub open spec fn command(a: AST, w: W) -> R decreases a, 0nat via command_dec {
  let v = akids(a);
  if !(a is Curly || a is Square) || v.len() < 2 || !(v[0] is Module) || !(v[1] is Ident) || aval(v[0]) is None || aval(v[1]) is None { R { w, r: Res::Open } } else {
    let o = outs(v, v.len(), w);
    if !(o.r is Done) { R { w: o.w, r: o.r } } else { perform(aval(v[0])->Some_0, aval(v[1])->Some_0, tyof(a), o.a, o.w) }
  }
}
pub open spec fn perform(m: Seq<char>, c: Seq<char>, t: Type, args: Seq<Seq<char>>, w: W) -> R {
  let p = entry(w, m, c, t).argument_types@;
  let i = In::Values(taken(p, args, p.len() as int));
  if !found(w, m, c, t) || mismatch(p, args.len()) { R { w, r: Res::Fail } } else { R { w: called(w, m, c, t, i), r: match said::<String>(w, m, c, t, i) { Some(s) => Res::Done(s@), None => Res::Fail } } }
}
pub open spec fn outs(v: Seq<AST>, m: nat, w: W) -> Outs decreases v, m {
  if m <= 2 || m > v.len() { Outs { w, r: Res::Done(Seq::empty()), a: Seq::empty() } } else {
    let o = outs(v, (m - 1) as nat, w);
    let c = v[m - 1];
    if !(o.r is Done) { o } else {
      let x = if c is Curly || c is Square { command(c, o.w) } else if c is Expr || c is Text { other(c, o.w) } else { R { w: o.w, r: Res::Open } };
      match x.r { Res::Done(s) => Outs { w: x.w, r: x.r, a: o.a.push(s) }, _ => Outs { w: x.w, r: x.r, a: o.a } }
    }
  }
}
#[via_fn] proof fn command_dec(a: AST, w: W) { if ainner(a) { lemma_asmaller(a); } }
pub proof fn lemma_stuck(v: Seq<AST>, m: nat, n: nat, w: W) requires 2 <= m <= n <= v.len(), !(outs(v, m, w).r is Done) ensures outs(v, n, w) == outs(v, m, w) decreases n { if m < n { lemma_stuck(v, m, (n - 1) as nat, w); } }
pub proof fn lemma_next(v: Seq<AST>, m: nat, w: W) requires 2 < m <= v.len()
  ensures !(outs(v, m, w).r is Done) ==> outs(v, v.len(), w) == outs(v, m, w),
    outs(v, (m - 1) as nat, w).r is Done ==> outs(v, m, w) == ({ let o = outs(v, (m - 1) as nat, w); let c = v[m - 1]; let x = if c is Curly || c is Square { command(c, o.w) } else if c is Expr || c is Text { other(c, o.w) } else { R { w: o.w, r: Res::Open } }; match x.r { Res::Done(s) => Outs { w: x.w, r: x.r, a: o.a.push(s) }, _ => Outs { w: x.w, r: x.r, a: o.a } } })
{ if !(outs(v, m, w).r is Done) { lemma_stuck(v, m, v.len(), w); } }
pub open spec fn so_far(v: Seq<AST>, m: nat, w0: W, w: W, a: Seq<String>) -> bool { let o = outs(v, m, w0); outs(v, v.len(), w0).r is Open || o.w == w && o.r is Done && o.a =~= sv(a) }
pub broadcast proof fn lemma_sv_skip(s: Seq<String>, i: int) requires 0 <= i <= s.len() ensures #[trigger] sv(s.skip(i)) == sv(s).skip(i) { assert(sv(s.skip(i)) =~= sv(s).skip(i)); }
pub broadcast proof fn lemma_sv0(s: Seq<String>) requires s.len() == 0 ensures #[trigger] sv(s) == Seq::<Seq<char>>::empty() { assert(sv(s) =~= Seq::<Seq<char>>::empty()); }
broadcast use {lemma_sv_skip, lemma_sv0};
pub open spec fn tyof(a: AST) -> Type { if a is Curly { Type::TBlock } else { Type::TInline } }
pub open spec fn types_of(p: Seq<(String, Type)>) -> Seq<Type> { Seq::new(p.len(), |i: int| pt(p, i)) }
pub open spec fn named(a: AST, m: Seq<char>, c: Seq<char>) -> bool { let v = akids(a); v.len() >= 2 && v[0] is Module && v[1] is Ident && aval(v[0]) == Some(m) && aval(v[1]) == Some(c) }
// nothing is said about the command, or it is one
pub open spec fn plain(a: AST, w: W, m: Seq<char>, c: Seq<char>) -> bool { command(a, w).r is Open || ({ let v = akids(a); v.len() >= 2 && v[0] is Module && v[1] is Ident && aval(v[0]) == Some(m) && aval(v[1]) == Some(c) }) }
@fn brack_plugin::types::arg_counter
  ensures r.0 == nrequired($0@, $0@.len()), r.1 == (if hasarray($0@, $0@.len()) { usize::MAX as int } else { $0@.len() as int })
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == $0@, min == nrequired($0@, vx_i0 as nat), min <= vx_i0, max == (if hasarray($0@, vx_i0 as nat) { usize::MAX as int } else { vx_i0 as int })
  decreases vx_s0@.len() - vx_i0
@fn brack_codegen::text::generate external
  requires $0 is Text
  ensures as_said(other(*$0, world(*old($1))), world(*final($1)), r)
@fn brack_codegen::expr::generate external
  requires $0 is Expr
  ensures as_said(other(*$0, world(*old($1))), world(*final($1)), r)
@fn brack_codegen::curly::generate
  requires $0 is Curly
  ensures as_said(command(*$0, world(*old($1))), world(*final($1)), r)
  decreases *$0
@loop 0
  invariant
    vx_i0 <= vx_s0@.len() || vx_s0@.len() < 2, vx_i0 >= 2, vx_s0@ == akids(*$0), ainner(*$0),
    so_far(vx_s0@, vx_i0 as nat, world(*old($1)), world(*$1), arguments@),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { reveal_with_fuel(command, 2); lemma_next(vx_s0@, vx_i0 as nat, world(*old($1))); lemma_asmall(*$0, vx_i0 - 1); }
@loop 1
  invariant
    vx_i1 <= vx_s1@.len(), vx_s1@ == arg_types@, vx_c1@.len() == vx_i1, forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_c1@[i] == pt(arg_types@, i)
  decreases vx_s1@.len() - vx_i1
@hook before loop 2
  proof { reveal(lacksm); assert(sv(arguments@).len() == arguments@.len()); assert(vvs(args@) =~= taken(arg_types@, sv(arguments@), 0)); }
@loop 2
  invariant
    vx_i2 <= vx_s2@.len(), vx_s2@ == arg_types@, vvs(args@) =~= taken(arg_types@, sv(arguments@), vx_i2 as int),
    ainner(*$0), so_far(akids(*$0), akids(*$0).len(), world(*old($1)), world(*$1), arguments@),
    !lacksm(arg_types@, arguments@.len(), vx_i2 as int), arguments@.len() <= arg_types@.len() || arrayed(arg_types@), found(world(*$1), module_name@, ident_name@, tyof(*$0)), arg_types == entry(world(*$1), module_name@, ident_name@, tyof(*$0)).argument_types, named(*$0, module_name@, ident_name@) || command(*$0, world(*old($1))).r is Open
  decreases vx_s2@.len() - vx_i2
@hook loop 2 item
  proof { reveal_with_fuel(command, 2); lemma_lack(arg_types@, arguments@.len(), vx_i2 - 1); assert(t == pt(arg_types@, vx_i2 - 1)); }
@hook after loop 2
  proof { reveal_with_fuel(command, 2); }
@hook after loop 1
  proof { lemma_lacks(arg_types@, vx_c1@, arguments@.len()); lemma_lack0(arg_types@, arguments@.len()); reveal_with_fuel(command, 2); }
@fn brack_codegen::square::generate
  requires $0 is Square
  ensures as_said(command(*$0, world(*old($1))), world(*final($1)), r)
  decreases *$0
@like brack_codegen::curly::generate
