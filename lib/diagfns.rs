// What the functions owe for C09 and C10.
pub open spec fn abs(c: CST) -> A { A { k: nk(c), l: al(c) } }
pub open spec fn seen(c: CST) -> A { A { k: skind(c), l: if nk(c) is BackSlash && kids(c).len() > 0 { al(kids(c)[0]) } else { al(c) } } }
pub open spec fn as_text(a: A) -> A { A { k: N::Text, ..a } }
pub open spec fn told(c: CST, v: Seq<TransformError>) -> bool { says(v, deserves(c, H::This), deserves(c, H::All)) }
pub open spec fn out_p(c: CST, o: CST) -> bool { abs(o) == seen(c) && (nk(c) is Expr ==> absv(kids(o)) == seenv(kids(c))) }
pub open spec fn kept_pre(v: Seq<CST>) -> bool { true }
pub open spec fn kept_p(v: Seq<CST>, r: Seq<CST>) -> bool { true }
pub open spec fn kept_inv(v: Seq<CST>, i: int, r: Seq<CST>) -> bool { true }
pub open spec fn args_pre(v: Seq<CST>) -> bool { true }
pub open spec fn args_p(v: Seq<CST>, r: Seq<CST>) -> bool { true }
pub open spec fn args_inv(v: Seq<CST>, i: int, r: Seq<CST>, e: CST) -> bool { true }
pub open spec fn args_end(v: Seq<CST>, r: Seq<CST>, e: CST) -> bool { true }
pub proof fn lemma_arg(v: Seq<CST>, i: int) { }
pub open spec fn ready(c: CST) -> bool { true }
pub proof fn lemma_ready(c: CST, i: int) { }
pub open spec fn elems_pre(v: Seq<CST>) -> bool { true }
pub open spec fn elems_p(v: Seq<CST>, r: Seq<CST>) -> bool { true }
pub open spec fn elems_inv(v: Seq<CST>, i: int, r: Seq<CST>, w: Seq<CST>) -> bool { true }
pub open spec fn in_args(g: Seq<A>, m: nat, empty: bool, after: bool, h: H) -> bool { let s = com(g, m, h); !s.stopped && s.empty == empty && s.after == after && (m > 0 ==> s.prev == g[m - 1].l) }
pub open spec fn ends_ok(n: N, f: Seq<A>) -> bool { f.len() > 0 && f[0].k == open_of(n) && (closer(f.last().k) ==> f.last().k == close_of(n)) }
pub open spec fn below(c: CST, i: int, v: Seq<TransformError>) -> bool { says(v, among(kids(c), i as nat, H::This), among(kids(c), i as nat, H::All)) }
pub open spec fn command_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { below(c, i, e) && absv(v) == flat(kids(c), i as nat) && (i > 0 ==> ends_ok(nk(c), absv(v))) }
pub open spec fn expr_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { below(c, i, e) && absv(v) == seenv(kids(c).take(i)) }
pub open spec fn stmt_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { says(e, among(kids(c), i as nat, H::This) || stray(kids(c), i as nat, H::This), among(kids(c), i as nat, H::All) || stray(kids(c), i as nat, H::All)) }
pub open spec fn doc_inv(c: CST, i: int, v: Seq<CST>, e: Seq<TransformError>) -> bool { below(c, i, e) }
pub broadcast proof fn lemma_take(v: Seq<CST>, i: int) requires 0 <= i < v.len() ensures #![trigger seenv(v.take(i + 1))] seenv(v.take(i + 1)) == seenv(v.take(i)).push(seen(v[i])) { assert(seenv(v.take(i + 1)) =~= seenv(v.take(i)).push(seen(v[i]))); }
pub broadcast proof fn lemma_take_all(v: Seq<CST>, i: int) requires i == v.len() ensures #![trigger seenv(v.take(i))] seenv(v.take(i)) == seenv(v) { assert(v.take(i) =~= v); }
pub broadcast proof fn lemma_take0(v: Seq<CST>) ensures #![trigger seenv(v.take(0))] seenv(v.take(0)) == Seq::<A>::empty() { assert(seenv(v.take(0)) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_escape(c: CST, h: H) requires nk(c) is BackSlash, kids(c).len() == 1, nk(kids(c)[0]) is Text ensures !(#[trigger] deserves(c, h)) { let v = kids(c); assert(!deserves(v[0], h)); assert(!among(v, 0, h)); assert(among(v, 1, h) == (among(v, 0, h) || deserves(v[0], h))); }
use crate::brack_transformer::ast::*;
broadcast use {lemma_header, lemma_escape, lemma_take, lemma_take_all, lemma_take0, lemma_has, lemma_has_cat, lemma_has0, lemma_stopped, lemma_bad_args, lemma_absv, lemma_absv_cat, lemma_absv0, lemma_absv1, lemma_conforms};
