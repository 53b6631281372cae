@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/grammar.rs
@include ../lib/tr.rs
@include ../lib/asttree.rs
@include ../lib/placedtree.rs
@include ../lib/diag.rs
@include ../lib/wf.rs
@include ../lib/trfns.vx
@prelude
// strict(): the document is well formed, and content is compared; otherwise only that nothing panics.  Every obligation is
// discharged for both.
pub uninterp spec fn strict() -> bool;
pub struct A { pub k: N, pub l: Location, pub t: T }
pub open spec fn nil() -> T { T::Leaf(N::Empty, nowhere(), None) }
pub open spec fn tl(t: T) -> Location { match t { T::Node(_, l, _) => l, T::Leaf(_, l, _) => l } }
// the smallest place that holds all of these
pub open spec fn cover(v: Seq<T>) -> Location decreases v.len() { if v.len() == 0 { nowhere() } else if v.len() == 1 { tl(v[0]) } else { join(cover(v.drop_last()), tl(v.last())) } }
pub open spec fn when(t: T) -> T { if strict() { t } else { nil() } }
pub open spec fn when_at(l: Location) -> Location { if strict() { l } else { nowhere() } }
// ---- the content of a document, by the rules
pub open spec fn content(c: CST) -> T decreases c, 0nat via content_dec {
  if !inner(c) { leaf(c) }
  else { let v = kids(c); let p = parts(v, v.len());
    match nk(c) {
      N::BackSlash => if p.len() == 1 { p[0] } else { T::Leaf(N::Invalid, cloc(c), None) },
      N::Expr => T::Node(N::Expr, cloc(c), p),
      N::Stmt => T::Node(N::Stmt, cloc(c), only(v, p, v.len(), N::Expr)),
      N::Document => T::Node(N::Document, cloc(c), only(v, p, v.len(), N::Stmt)),
      n => { let f = pflat(v, p, v.len()); T::Node(n, cloc(c), seq![f[1].t, f[3].t] + arguments(f)) },
    } }
}
pub open spec fn parts(v: Seq<CST>, m: nat) -> Seq<T> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { parts(v, (m - 1) as nat).push(content(v[m - 1])) } }
#[via_fn] proof fn content_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn leaf(c: CST) -> T { match nk(c) { N::Space => T::Leaf(N::Text, cloc(c), Some(" "@)), N::Dot => T::Leaf(N::Text, cloc(c), Some("."@)), N::Comma => T::Leaf(N::Text, cloc(c), Some(","@)), N::Invalid => T::Leaf(N::Invalid, cloc(c), None), n => T::Leaf(n, cloc(c), value(c)) } }
// the parts of the children of one kind
pub open spec fn only(v: Seq<CST>, p: Seq<T>, m: nat, n: N) -> Seq<T> decreases m { if m == 0 || m > v.len() { Seq::empty() } else { let r = only(v, p, (m - 1) as nat, n); if nk(v[m - 1]) == n { r.push(p[m - 1]) } else { r } } }
// the elements of a command: those of its expressions, in order
pub open spec fn pflat(v: Seq<CST>, p: Seq<T>, m: nat) -> Seq<A> decreases m { if m == 0 || m > v.len() { Seq::empty() } else { pflat(v, p, (m - 1) as nat) + pelems(v[m - 1], p[m - 1]) } }
pub open spec fn pelems(c: CST, t: T) -> Seq<A> { if nk(c) is Expr { Seq::new(kids(c).len(), |i: int| A { k: skind(kids(c)[i]), l: tl(t->Node_2[i]), t: t->Node_2[i] }) } else { seq![A { k: skind(c), l: tl(t), t }] } }
// the arguments: separated by commas, without spaces around, and without line feeds
pub struct G { pub done: Seq<T>, pub cur: Seq<T>, pub sp: Seq<T> }
pub open spec fn gather1(g: G, a: A) -> G {
  match a.k {
    N::Comma => G { done: g.done.push(T::Node(N::Expr, cover(g.cur), g.cur)), cur: Seq::empty(), sp: Seq::empty() },
    N::Space => if g.cur.len() > 0 { G { sp: g.sp.push(T::Leaf(N::Text, a.l, Some(" "@))), ..g } } else { g },
    N::NewLine => g,
    _ => G { cur: (g.cur + g.sp).push(a.t), sp: Seq::empty(), ..g },
  }
}
pub open spec fn gather(f: Seq<A>, m: nat) -> G decreases m { if m <= 4 || m > f.len() { G { done: Seq::empty(), cur: Seq::empty(), sp: Seq::empty() } } else { gather1(gather(f, (m - 1) as nat), f[m - 1]) } }
pub open spec fn arguments(f: Seq<A>) -> Seq<T> { let g = gather(f, (f.len() - 1) as nat); if g.cur.len() > 0 { g.done.push(T::Node(N::Expr, cover(g.cur), g.cur)) } else { g.done } }
// ---- the trees of simplification
pub open spec fn ctree(c: CST) -> T decreases c, 0nat via ctree_dec { if inner(c) { T::Node(nk(c), cloc(c), ctrees(kids(c), kids(c).len())) } else { leaf(c) } }
pub open spec fn ctrees(v: Seq<CST>, m: nat) -> Seq<T> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { ctrees(v, (m - 1) as nat).push(ctree(v[m - 1])) } }
#[via_fn] proof fn ctree_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn loose(n: N) -> bool { n is NewLine || n is End || closer(n) || n is AngleOpen || n is CurlyOpen || n is SquareOpen }
// what the last pass accepts
pub open spec fn astable(c: CST) -> bool decreases c, 0nat via astable_dec { !loose(nk(c)) && !(nk(c) is BackSlash) && !(nk(c) is Empty) && (inner(c) ==> astables(kids(c), kids(c).len())) }
pub open spec fn astables(v: Seq<CST>, m: nat) -> bool decreases v, m { m == 0 || m > v.len() || astables(v, (m - 1) as nat) && astable(v[m - 1]) }
#[via_fn] proof fn astable_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
#[verifier::opaque] pub open spec fn st(v: Seq<CST>) -> bool { forall|i: int| 0 <= i < v.len() ==> astable(#[trigger] v[i]) }
pub proof fn lemma_st1(v: Seq<CST>, m: nat) requires m <= v.len() ensures astables(v, m) == (forall|i: int| 0 <= i < m ==> astable(#[trigger] v[i])) decreases m { if m > 0 { lemma_st1(v, (m - 1) as nat); } }
pub broadcast proof fn lemma_st(c: CST) ensures #[trigger] astable(c) == (!loose(nk(c)) && !(nk(c) is BackSlash) && !(nk(c) is Empty) && (inner(c) ==> st(kids(c)))) { reveal(st); if inner(c) { lemma_st1(kids(c), kids(c).len()); } }
pub open spec fn fine(c: CST) -> bool { astable(c) || loose(nk(c)) }
#[verifier::opaque] pub open spec fn fines(v: Seq<CST>) -> bool { forall|i: int| 0 <= i < v.len() ==> fine(#[trigger] v[i]) }
pub open spec fn ts(v: Seq<A>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i].t) }
pub open spec fn abs(c: CST) -> A { A { k: nk(c), l: when_at(cloc(c)), t: when(ctree(c)) } }
pub open spec fn seen(c: CST) -> A { A { k: skind(c), l: when_at(tl(content(c))), t: when(content(c)) } }
pub open spec fn as_text(a: A) -> A { A { k: N::Text, l: a.l, t: when(T::Leaf(N::Text, a.l, Some(" "@))) } }
// a node with these elements
pub open spec fn node(n: N, l: Location, v: Seq<A>) -> A { A { k: n, l: when_at(l), t: when(T::Node(n, l, ts(v))) } }
pub open spec fn group_of(v: Seq<A>) -> A { node(N::Expr, cover(ts(v)), v) }
pub proof fn lemma_ctrees(v: Seq<CST>, m: nat) requires strict(), m <= v.len() ensures ctrees(v, m) =~= ts(absv(v)).take(m as int) decreases m { if m > 0 { lemma_ctrees(v, (m - 1) as nat); } }
pub proof fn lemma_abs(c: CST) requires inner(c) ensures abs(c) == node(nk(c), cloc(c), absv(kids(c))) { if strict() { lemma_ctrees(kids(c), kids(c).len()); assert(ts(absv(kids(c))).take(kids(c).len() as int) =~= ts(absv(kids(c)))); } }
// ---- what the passes owe
pub broadcast proof fn lemma_st_push(v: Seq<CST>, x: CST) ensures #![trigger st(v.push(x))] st(v.push(x)) == (st(v) && astable(x)) { reveal(st); let w = v.push(x); assert(w[w.len() - 1] == x); if st(w) { assert forall|i: int| 0 <= i < v.len() implies astable(#[trigger] v[i]) by { assert(w[i] == v[i]); } } }
pub broadcast proof fn lemma_st0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] st(v) { reveal(st); }
pub broadcast proof fn lemma_st_at(v: Seq<CST>, i: int) requires #[trigger] st(v), 0 <= i < v.len() ensures astable(#[trigger] v[i]) { reveal(st); }
pub broadcast proof fn lemma_fines_push(v: Seq<CST>, x: CST) ensures #![trigger fines(v.push(x))] fines(v.push(x)) == (fines(v) && fine(x)) { reveal(fines); let w = v.push(x); assert(w[w.len() - 1] == x); if fines(w) { assert forall|i: int| 0 <= i < v.len() implies fine(#[trigger] v[i]) by { assert(w[i] == v[i]); } } }
pub broadcast proof fn lemma_fines0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] fines(v) { reveal(fines); }
pub broadcast proof fn lemma_fines_at(v: Seq<CST>, i: int) requires #[trigger] fines(v), 0 <= i < v.len() ensures fine(#[trigger] v[i]) { reveal(fines); }
pub broadcast proof fn lemma_args0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] args_pre(v) { reveal(args_pre); }
pub broadcast proof fn lemma_args_push(v: Seq<CST>, x: CST) ensures #![trigger args_pre(v.push(x))] args_pre(v.push(x)) == (args_pre(v) && if v.len() == 0 { opener(nk(x)) } else { sep(x) }) { reveal(args_pre); let w = v.push(x); assert(w[w.len() - 1] == x); if args_pre(w) { assert forall|i: int| 0 <= i < v.len() implies if i == 0 { opener(nk(#[trigger] v[i])) } else { sep(v[i]) } by { assert(w[i] == v[i]); } } }
pub broadcast proof fn lemma_args_cat(v: Seq<CST>, w: Seq<CST>) requires v.len() > 0, args_pre(v), st(w) ensures #[trigger] args_pre(v + w) { reveal(args_pre); reveal(st); }
pub broadcast proof fn lemma_args_at(v: Seq<CST>, i: int) requires #[trigger] args_pre(v), 0 <= i < v.len() ensures if i == 0 { opener(nk(#[trigger] v[i])) } else { sep(v[i]) } { reveal(args_pre); }
pub broadcast proof fn lemma_elems0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] elems_pre(v) { reveal(elems_pre); }
pub broadcast proof fn lemma_elems_at(v: Seq<CST>, i: int) requires #[trigger] elems_pre(v), 0 <= i < v.len() ensures if i == 0 { opener(nk(#[trigger] v[i])) } else { sep(v[i]) || nk(v[i]) is NewLine } { reveal(elems_pre); }
pub broadcast proof fn lemma_elems_cat(v: Seq<CST>, w: Seq<CST>) requires elems_pre(v), v.len() > 0 && st(w) || w.len() == 1 && (if v.len() == 0 { opener(nk(w[0])) } else { sep(w[0]) || nk(w[0]) is NewLine }) ensures #[trigger] elems_pre(v + w) { reveal(elems_pre); reveal(st); }
pub broadcast proof fn lemma_args_fines(v: Seq<CST>) requires args_pre(v) ensures #[trigger] fines(v) { reveal(args_pre); reveal(fines); assert forall|i: int| 0 <= i < v.len() implies fine(#[trigger] v[i]) by { } }
pub open spec fn al(c: CST) -> Location { cloc(c) }
pub open spec fn located(c: CST, l: Location) -> bool { l == cloc(c) }
pub open spec fn joined(a: Location, b: Location, r: Location) -> bool { r == join(a, b) }
pub open spec fn joins(p: CST, c: CST, r: CST) -> bool { cloc(r) == if kids(p).len() == 0 { cloc(c) } else { join(cloc(p), cloc(c)) } }
pub open spec fn hits(h: H, e: TransformError) -> bool { false }
pub open spec fn says(v: Seq<TransformError>, a: bool, b: bool) -> bool { true }
pub open spec fn told(c: CST, v: Seq<TransformError>) -> bool { true }
pub open spec fn in_args(g: Seq<A>, m: nat, empty: bool, after: bool, h: H) -> bool { true }
pub open spec fn ends_ok(n: N, f: Seq<A>) -> bool { f.len() > 0 && f[0].k == open_of(n) && (closer(f.last().k) ==> f.last().k == close_of(n)) }
pub open spec fn ready(c: CST) -> bool { strict() ==> well_formed(c) }
pub proof fn lemma_ready(c: CST, i: int) requires ready(c), inner(c), 0 <= i < kids(c).len() ensures ready(kids(c)[i]) { if strict() { lemma_wf_at(kids(c), i, kids(c).len()); } }
pub proof fn lemma_wf_at(v: Seq<CST>, i: int, m: nat) requires all_well_formed(v, m), 0 <= i < m <= v.len() ensures well_formed(v[i]) decreases m { if i < m - 1 { lemma_wf_at(v, i, (m - 1) as nat); } }
pub open spec fn out_p(c: CST, o: CST) -> bool { abs(o) == seen(c) && fine(o) && (nk(c) is Expr ==> absv(kids(o)) == seenv(kids(c))) }
pub broadcast proof fn lemma_abs_out(c: CST, o: CST) requires inner(o) ensures #![trigger out_p(c, o)] abs(o) == node(nk(o), cloc(o), absv(kids(o))) { lemma_abs(o); }
pub broadcast proof fn lemma_abs_arg(v: Seq<CST>, i: int, r: Seq<CST>, e: CST) requires inner(e) ensures #![trigger args_inv(v, i, r, e)] abs(e) == node(nk(e), cloc(e), absv(kids(e))) { lemma_abs(e); }
// dropping what abstract trees do not have
pub open spec fn kept(k: N) -> bool { !(k is Space || k is Comma || k is Dot || loose(k)) }
pub open spec fn keep(f: Seq<A>, m: nat) -> Seq<A> decreases m { if m == 0 || m > f.len() { Seq::empty() } else if kept(f[m - 1].k) { keep(f, (m - 1) as nat).push(f[m - 1]) } else { keep(f, (m - 1) as nat) } }
pub open spec fn kept_pre(v: Seq<CST>) -> bool { fines(v) }
pub open spec fn kept_p(v: Seq<CST>, r: Seq<CST>) -> bool { st(r) && absv(r) == keep(absv(v), v.len()) }
pub open spec fn kept_inv(v: Seq<CST>, i: int, r: Seq<CST>) -> bool { fines(v) && st(r) && absv(r) == keep(absv(v), i as nat) }
pub broadcast proof fn lemma_cover(v: Seq<A>, x: A) ensures #![trigger ts(v.push(x))] cover(ts(v.push(x))) == (if v.len() == 0 { tl(x.t) } else { join(cover(ts(v)), tl(x.t)) })
{ let w = ts(v.push(x)); assert(w.drop_last() =~= ts(v)); assert(w.last() == x.t); }
pub proof fn lemma_place(c: CST) requires strict() ensures tl(abs(c).t) == cloc(c) { }
pub open spec fn placed(e: CST) -> bool { strict() && kids(e).len() > 0 ==> cloc(e) == cover(ts(absv(kids(e)))) }
// separators
pub open spec fn sep(c: CST) -> bool { astable(c) || closer(nk(c)) }
pub open spec fn opener(n: N) -> bool { n is AngleOpen || n is CurlyOpen || n is SquareOpen }
#[verifier::opaque] pub open spec fn args_pre(v: Seq<CST>) -> bool { forall|i: int| 0 <= i < v.len() ==> if i == 0 { opener(nk(#[trigger] v[i])) } else { sep(v[i]) } }
#[verifier::opaque] pub open spec fn elems_pre(v: Seq<CST>) -> bool { forall|i: int| 0 <= i < v.len() ==> if i == 0 { opener(nk(#[trigger] v[i])) } else { sep(v[i]) || nk(v[i]) is NewLine } }
pub open spec fn elems_p(v: Seq<CST>, r: Seq<CST>) -> bool { args_pre(r) }
pub open spec fn elems_inv(v: Seq<CST>, i: int, r: Seq<CST>, w: Seq<CST>) -> bool { elems_pre(v) && args_pre(r) && st(w) && (i > 0 ==> r.len() > 0) && (i == 0 ==> r.len() == 0) }
// grouping the elements into arguments; bad: the command is not well formed, and nothing more is said
pub struct R { pub out: Seq<A>, pub cur: Seq<A>, pub bad: bool, pub fin: bool }
pub open spec fn group1(g: R, j: int, a: A) -> R {
  if j < 4 { R { out: g.out.push(a), ..g } }
  else if g.bad || g.fin { g }
  else if a.k is Comma { if g.cur.len() == 0 { R { bad: true, ..g } } else { R { out: g.out.push(group_of(g.cur)), cur: Seq::empty(), ..g } } }
  else if closer(a.k) { R { out: if g.cur.len() > 0 { g.out.push(group_of(g.cur)).push(a) } else { g.out.push(a) }, cur: Seq::empty(), fin: true, ..g } }
  else if a.k is Dot { R { bad: true, ..g } }
  else { R { cur: g.cur.push(a), ..g } }
}
pub open spec fn group(f: Seq<A>, m: nat) -> R decreases m { if m == 0 || m > f.len() { R { out: Seq::empty(), cur: Seq::empty(), bad: false, fin: false } } else { group1(group(f, (m - 1) as nat), m - 1, f[m - 1]) } }
pub open spec fn args_p(v: Seq<CST>, r: Seq<CST>) -> bool { fines(r) && ({ let g = group(absv(v), v.len()); v.len() >= 4 && g.fin && !g.bad ==> absv(r) == g.out }) }
pub open spec fn args_inv(v: Seq<CST>, i: int, r: Seq<CST>, e: CST) -> bool { fines(r) && st(kids(e)) && placed(e) && ({ let g = group(absv(v), i as nat); !g.fin && (!g.bad ==> absv(r) == g.out && absv(kids(e)) == g.cur) }) }
pub open spec fn args_end(v: Seq<CST>, r: Seq<CST>, e: CST) -> bool { fines(r) && st(kids(e)) && ({ let g = group(absv(v), v.len()); g.fin && !g.bad ==> kids(e).len() == 0 && absv(r) == g.out }) }
pub proof fn lemma_arg(v: Seq<CST>, i: int) requires 4 < i <= v.len() ensures group(absv(v), i as nat) == group1(group(absv(v), (i - 1) as nat), i - 1, abs(v[i - 1])), ({ let g = group(absv(v), i as nat); g.fin || g.bad ==> group(absv(v), v.len()) == g })
{ let g = group(absv(v), i as nat); if g.fin || g.bad { lemma_group_fin(absv(v), i as nat); } }
pub proof fn lemma_group_fin(f: Seq<A>, m: nat) requires 4 <= m <= f.len(), group(f, m).fin || group(f, m).bad ensures group(f, f.len()) == group(f, m) decreases f.len() - m { if m < f.len() { assert(group(f, m + 1) == group(f, m)); lemma_group_fin(f, m + 1); } }
pub open spec fn elem_ok(c: CST, v: Seq<CST>) -> bool { elems_pre(v) }
pub open spec fn command_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { elems_pre(v) && absv(v) == flat(kids(c), i as nat) && (i > 0 ==> ends_ok(nk(c), absv(v))) }
pub open spec fn expr_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { st(v) && absv(v) == seenv(kids(c).take(i)) }
pub open spec fn stmt_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { fines(v) && absv(v) == seenv(kids(c).take(i)) }
pub open spec fn doc_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { fines(v) && absv(v) == seenv(kids(c).take(i)) }
pub broadcast proof fn lemma_take(v: Seq<CST>, i: int) requires 0 <= i < v.len() ensures #![trigger seenv(v.take(i + 1))] seenv(v.take(i + 1)) == seenv(v.take(i)).push(seen(v[i])) { assert(seenv(v.take(i + 1)) =~= seenv(v.take(i)).push(seen(v[i]))); }
pub broadcast proof fn lemma_take_all(v: Seq<CST>, i: int) requires i == v.len() ensures #![trigger seenv(v.take(i))] seenv(v.take(i)) == seenv(v) { assert(v.take(i) =~= v); }
pub broadcast proof fn lemma_take0(v: Seq<CST>) ensures #![trigger seenv(v.take(0))] seenv(v.take(0)) == Seq::<A>::empty() { assert(seenv(v.take(0)) =~= Seq::<A>::empty()); }
// ---- the passes together yield the content
pub proof fn lemma_parts(v: Seq<CST>, m: nat) requires m <= v.len() ensures parts(v, m) =~= Seq::new(m, |i: int| content(v[i])) decreases m { if m > 0 { lemma_parts(v, (m - 1) as nat); } }
pub proof fn lemma_only(v: Seq<CST>, m: nat, n: N)
  requires strict(), m <= v.len(), kept(n), !(n is BackSlash), forall|i: int| 0 <= i < v.len() ==> nk(#[trigger] v[i]) == n || loose(nk(v[i]))
  ensures ts(keep(seenv(v), m)) =~= only(v, parts(v, v.len()), m, n) decreases m
{ if m > 0 { lemma_only(v, (m - 1) as nat, n); lemma_parts(v, v.len()); } }
pub proof fn lemma_pflat(v: Seq<CST>, m: nat) requires strict(), m <= v.len() ensures flat(v, m) =~= pflat(v, parts(v, v.len()), m) decreases m
{ if m > 0 { lemma_pflat(v, (m - 1) as nat); lemma_parts(v, v.len()); let c = v[m - 1]; if nk(c) is Expr { lemma_parts(kids(c), kids(c).len()); assert(elems(c) =~= pelems(c, content(c))); } } }
pub proof fn lemma_group_prefix(g: Seq<A>, x: A, m: nat) requires m <= g.len() ensures group(g.push(x), m) == group(g, m) decreases m { if m > 0 { lemma_group_prefix(g, x, (m - 1) as nat); } }
pub open spec fn groupall(g: Seq<A>) -> R { group(g, g.len()) }
pub proof fn lemma_group_push(g: Seq<A>, x: A) ensures groupall(g.push(x)) == group1(groupall(g), g.len() as int, x) { lemma_group_prefix(g, x, g.len()); }
pub open spec fn texts(w: Seq<A>) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i].k is Text }
pub proof fn lemma_group_texts(g: Seq<A>, w: Seq<A>)
  requires g.len() >= 4, texts(w), !groupall(g).fin, !groupall(g).bad
  ensures groupall(g + w) == (R { cur: groupall(g).cur + w, ..groupall(g) }) decreases w.len()
{
  if w.len() == 0 { assert(g + w =~= g); assert(groupall(g).cur + w =~= groupall(g).cur); }
  else { let d = w.drop_last(); lemma_group_texts(g, d); assert((g + d).push(w.last()) =~= g + w); lemma_group_push(g + d, w.last()); assert(w[w.len() - 1].k is Text); assert((groupall(g).cur + d).push(w.last()) =~= groupall(g).cur + w); }
}
pub open spec fn exprs(d: Seq<T>) -> Seq<A> { Seq::new(d.len(), |i: int| A { k: N::Expr, l: tl(d[i]), t: d[i] }) }
pub open spec fn head(f: Seq<A>) -> Seq<A> { seq![f[0], f[1], f[2], f[3]] }
pub open spec fn alike(f: Seq<A>, m: nat) -> bool {
  let q = squeeze(f, m); let r = groupall(q.res); let g = gather(f, m);
  q.res.len() >= 4 && !r.fin && !r.bad && r.out =~= head(f) + exprs(g.done) && ts(r.cur) =~= g.cur && (r.cur.len() > 0) == !args(f, m).blank && texts(q.ws)
  && (r.cur.len() > 0) == (q.res.len() > 4 && partk(q.res.last().k)) && (if r.cur.len() > 0 { ts(q.ws) =~= g.sp } else { g.sp.len() == 0 })
}
pub proof fn lemma_alike(f: Seq<A>, m: nat)
  requires strict(), middle(f, true), 4 <= m < f.len(), no_dot_from(f, m), !args(f, m).bad, !blank(f[0].k), !blank(f[1].k), !blank(f[2].k), !blank(f[3].k)
  ensures alike(f, m) decreases m
{
  if m == 4 {
    reveal_with_fuel(squeeze, 6); reveal_with_fuel(group, 6);
    assert(squeeze(f, 4).res =~= head(f)); assert(groupall(head(f)).out =~= head(f));
  } else {
    lemma_alike(f, (m - 1) as nat); lemma_middle_at(f, true, m - 1);
    let q = squeeze(f, (m - 1) as nat); let a = f[m - 1]; let r = groupall(q.res); let g = gather(f, (m - 1) as nat);
    lemma_group_push(q.res, a);
    assert(args(f, m) == ({ let w = args(f, (m - 1) as nat); let k = a.k; if k is Comma { W { bad: w.bad || w.blank, comma: true, blank: true } } else if blank(k) { w } else { W { blank: false, ..w } } }));
    if r.cur.len() > 0 && !blank(a.k) && !(a.k is Comma) { lemma_group_texts(q.res, q.ws); lemma_group_push(q.res + q.ws, a); }
  }
}
pub proof fn lemma_keep_push(g: Seq<A>, x: A) ensures keep(g.push(x), g.push(x).len()) == (if kept(x.k) { keep(g, g.len()).push(x) } else { keep(g, g.len()) }) { lemma_keep_prefix(g, x, g.len()); }
pub proof fn lemma_keep_prefix(g: Seq<A>, x: A, m: nat) requires m <= g.len() ensures keep(g.push(x), m) == keep(g, m) decreases m { if m > 0 { lemma_keep_prefix(g, x, (m - 1) as nat); } }
pub proof fn lemma_keep(f: Seq<A>, d: Seq<T>) requires f.len() >= 4, !kept(f[0].k), kept(f[1].k), !kept(f[2].k), kept(f[3].k) ensures ({ let g = head(f) + exprs(d); keep(g, g.len()) =~= seq![f[1], f[3]] + exprs(d) }) decreases d.len()
{
  if d.len() == 0 { assert(head(f) + exprs(d) =~= head(f)); reveal_with_fuel(keep, 6); }
  else { lemma_keep(f, d.drop_last()); let x = A { k: N::Expr, l: tl(d.last()), t: d.last() }; assert(exprs(d) =~= exprs(d.drop_last()).push(x)); assert(head(f) + exprs(d) =~= (head(f) + exprs(d.drop_last())).push(x)); lemma_keep_push(head(f) + exprs(d.drop_last()), x); }
}
pub proof fn lemma_content(n: N, f: Seq<A>) requires strict(), command(n), command_ok(n, f), middle(f, true), f[0].k == open_of(n)
  ensures ({ let r = groupall(squeeze(f, f.len()).res); squeeze(f, f.len()).res.len() >= 4 && r.fin && !r.bad && ts(keep(r.out, r.out.len())) =~= seq![f[1].t, f[3].t] + arguments(f) })
{
  let m = (f.len() - 1) as nat; let a = f.last();
  assert(no_dot_from(f, m));
  lemma_alike(f, m);
  let q = squeeze(f, m); let r = groupall(q.res); let g = gather(f, m);
  lemma_group_push(q.res, a);
  lemma_keep(f, arguments(f));
  let all = head(f) + exprs(arguments(f));
  assert(groupall(squeeze(f, f.len()).res).out =~= all.push(a));
  lemma_keep_push(all, a);
}
pub broadcast proof fn lemma_out(c: CST, o: CST) requires conforms(c), ready(c), inner(c), 
  ensures #![trigger out_p(c, o)]
    nk(c) is Expr ==> seen(c) == node(N::Expr, cloc(c), seenv(kids(c))),
    nk(c) is Stmt || nk(c) is Document ==> seen(c) == node(nk(c), cloc(c), keep(seenv(kids(c)), kids(c).len())),
    nk(c) is BackSlash ==> (if kids(c).len() == 0 { seen(c) == (A { k: N::Invalid, l: when_at(cloc(c)), t: when(T::Leaf(N::Invalid, cloc(c), None)) }) } else { seen(c) == abs(kids(c)[0]) && nk(kids(c)[0]) is Text }),
    command(nk(c)) ==> (if strict() { ({ let f = flat(kids(c), kids(c).len()); let r = groupall(squeeze(f, f.len()).res); squeeze(f, f.len()).res.len() >= 4 && r.fin && !r.bad && seen(c) == node(nk(c), cloc(c), keep(r.out, r.out.len())) }) } else { seen(c).t == nil() }),
{
  let v = kids(c);
  if nk(c) is BackSlash && v.len() > 0 { lemma_child(c, 0); }
  if strict() {
    lemma_parts(v, v.len());
    if nk(c) is Expr { assert(parts(v, v.len()) =~= ts(seenv(v))); }
    else if nk(c) is Stmt { lemma_kinds(c); lemma_only(v, v.len(), N::Expr); }
    else if nk(c) is Document { lemma_kinds(c); lemma_only(v, v.len(), N::Stmt); }
    else if command(nk(c)) { lemma_command(c); lemma_pflat(v, v.len()); lemma_flat(c, v.len()); lemma_content(nk(c), flat(v, v.len())); }
  }
}
pub proof fn lemma_kinds(c: CST) requires conforms(c), nk(c) is Stmt || nk(c) is Document ensures forall|i: int| 0 <= i < kids(c).len() ==> nk(#[trigger] kids(c)[i]) == (if nk(c) is Stmt { N::Expr } else { N::Stmt }) || loose(nk(kids(c)[i]))
{ assert forall|i: int| 0 <= i < kids(c).len() implies nk(#[trigger] kids(c)[i]) == (if nk(c) is Stmt { N::Expr } else { N::Stmt }) || loose(nk(kids(c)[i])) by { lemma_child(c, i); } }
pub broadcast proof fn lemma_args_start(v: Seq<CST>, i: int, r: Seq<CST>, e: CST) requires i == 4, v.len() >= 4, r == v.subrange(0, 4), args_pre(v), kids(e).len() == 0 ensures #[trigger] args_inv(v, i, r, e)
{ reveal(fines); reveal(args_pre); reveal(st); reveal_with_fuel(group, 6); assert(absv(r) =~= group(absv(v), 4).out); assert(absv(kids(e)) =~= Seq::<A>::empty()); assert forall|j: int| 0 <= j < r.len() implies fine(#[trigger] r[j]) by { assert(r[j] == v[j]); } }
broadcast use {lemma_cover, lemma_absv, lemma_absv_cat, lemma_absv0, lemma_absv1, lemma_conforms, lemma_st, lemma_abs_out, lemma_abs_arg, lemma_out, lemma_args_start, lemma_st_push, lemma_st0, lemma_st_at, lemma_fines_push, lemma_fines0, lemma_fines_at, lemma_args0, lemma_args_push, lemma_args_cat, lemma_args_at, lemma_elems0, lemma_elems_at, lemma_elems_cat, lemma_args_fines, lemma_take, lemma_take_all, lemma_take0};
@fn brack_transformer::transform::transform__aux
  requires astable(*$0)
  ensures strict() ==> tree(r) == ctree(*$0)
  decreases *$0
@loop 0 acc=children
  invariant astable(*cst), inner(*cst), vx_s0@ == kids(*cst), vx_i0 <= vx_s0@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i0 as nat)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_smaller(*cst, vx_i0 - 1); }
@loop 1 acc=children
  invariant astable(*cst), inner(*cst), vx_s1@ == kids(*cst), vx_i1 <= vx_s1@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i1 as nat)
  decreases vx_s1@.len() - vx_i1
@hook loop 1 item
  proof { lemma_smaller(*cst, vx_i1 - 1); }
@loop 2 acc=children
  invariant astable(*cst), inner(*cst), vx_s2@ == kids(*cst), vx_i2 <= vx_s2@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i2 as nat)
  decreases vx_s2@.len() - vx_i2
@hook loop 2 item
  proof { lemma_smaller(*cst, vx_i2 - 1); }
@loop 3 acc=children
  invariant astable(*cst), inner(*cst), vx_s3@ == kids(*cst), vx_i3 <= vx_s3@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i3 as nat)
  decreases vx_s3@.len() - vx_i3
@hook loop 3 item
  proof { lemma_smaller(*cst, vx_i3 - 1); }
@loop 4 acc=children
  invariant astable(*cst), inner(*cst), vx_s4@ == kids(*cst), vx_i4 <= vx_s4@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i4 as nat)
  decreases vx_s4@.len() - vx_i4
@hook loop 4 item
  proof { lemma_smaller(*cst, vx_i4 - 1); }
@loop 5 acc=children
  invariant astable(*cst), inner(*cst), vx_s5@ == kids(*cst), vx_i5 <= vx_s5@.len(), strict() ==> treesv(children@) == ctrees(kids(*cst), vx_i5 as nat)
  decreases vx_s5@.len() - vx_i5
@hook loop 5 item
  proof { lemma_smaller(*cst, vx_i5 - 1); }
@fn brack_transformer::ast::new_document
  ensures aloc(r) == $1, ak(r) is Document, akids(r) == $0@
@fn brack_transformer::ast::new_stmt
  ensures aloc(r) == $1, ak(r) is Stmt, akids(r) == $0@
@fn brack_transformer::ast::new_expr
  ensures aloc(r) == $1, ak(r) is Expr, akids(r) == $0@
@fn brack_transformer::ast::new_angle
  ensures aloc(r) == $1, ak(r) is Angle, akids(r) == $0@
@fn brack_transformer::ast::new_curly
  ensures aloc(r) == $1, ak(r) is Curly, akids(r) == $0@
@fn brack_transformer::ast::new_square
  ensures aloc(r) == $1, ak(r) is Square, akids(r) == $0@
@fn brack_transformer::ast::new_ident
  ensures aloc(r) == $1, ak(r) is Ident, aval(r) == text($0)
@fn brack_transformer::ast::new_module
  ensures aloc(r) == $1, ak(r) is Module, aval(r) == text($0)
@fn brack_transformer::ast::new_text
  ensures aloc(r) == $1, ak(r) is Text, aval(r) == text($0)
@fn brack_transformer::ast::new_invalid
  ensures aloc(r) == $0, ak(r) is Invalid, aval(r) is None
@prelude
pub open spec fn whole(c: CST, o: AST, e: Seq<TransformError>) -> bool { strict() ==> tree(o) == content(c) }
pub proof fn lemma_end(c: CST) { }
