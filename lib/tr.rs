// What the transformer sees of a command: its elements, in order, escapes replaced by what they escape.
// A unit defines: struct A { pub k: N, .. }, abs(c: CST) -> A, seen(c: CST) -> A, as_text(a: A) -> A
use crate::brack_transformer::error::TransformError;
pub open spec fn absv(v: Seq<CST>) -> Seq<A> { Seq::new(v.len(), |i: int| abs(v[i])) }
pub open spec fn seenv(v: Seq<CST>) -> Seq<A> { Seq::new(v.len(), |i: int| seen(v[i])) }
pub broadcast proof fn lemma_absv(v: Seq<CST>, x: CST) ensures #![trigger absv(v.push(x))] absv(v.push(x)) == absv(v).push(abs(x)) { assert(absv(v.push(x)) =~= absv(v).push(abs(x))); }
pub broadcast proof fn lemma_absv_cat(a: Seq<CST>, b: Seq<CST>) ensures #![trigger absv(a + b)] absv(a + b) == absv(a) + absv(b) { assert(absv(a + b) =~= absv(a) + absv(b)); }
pub broadcast proof fn lemma_absv0(v: Seq<CST>) requires v.len() == 0 ensures #[trigger] absv(v) == Seq::<A>::empty() { assert(absv(v) =~= Seq::<A>::empty()); }
pub broadcast proof fn lemma_absv1(v: Seq<CST>) requires v.len() == 1 ensures #[trigger] absv(v) == seq![abs(v[0])] { assert(absv(v) =~= seq![abs(v[0])]); }
// the elements of the first m children, an expression being replaced by its parts
pub open spec fn flat(v: Seq<CST>, m: nat) -> Seq<A> decreases m { if m == 0 || m > v.len() { Seq::empty() } else { flat(v, (m - 1) as nat) + elems(v[m - 1]) } }
pub open spec fn elems(c: CST) -> Seq<A> { if nk(c) is Expr { seenv(kids(c)) } else { seq![seen(c)] } }
pub open spec fn partk(k: N) -> bool { !(k is Comma || k is Dot || closer(k)) }
pub open spec fn blank(k: N) -> bool { k is Space || k is NewLine }
// the elements without spaces and line feeds
pub open spec fn solid(f: Seq<A>, m: nat) -> Seq<A> decreases m { if m == 0 || m > f.len() { Seq::empty() } else if blank(f[m - 1].k) { solid(f, (m - 1) as nat) } else { solid(f, (m - 1) as nat).push(f[m - 1]) } }
// the elements without line feeds, and without spaces other than those between parts of the same argument
pub struct Q { pub res: Seq<A>, pub ws: Seq<A> }
pub open spec fn squeeze1(q: Q, a: A) -> Q {
  if a.k is Space { Q { res: q.res, ws: q.ws.push(as_text(a)) } }
  else if a.k is NewLine { q }
  else if q.res.len() > 4 && partk(q.res.last().k) && partk(a.k) { Q { res: (q.res + q.ws).push(a), ws: Seq::empty() } }
  else { Q { res: q.res.push(a), ws: Seq::empty() } }
}
pub open spec fn squeeze(f: Seq<A>, m: nat) -> Q decreases m { if m == 0 || m > f.len() { Q { res: Seq::empty(), ws: Seq::empty() } } else { squeeze1(squeeze(f, (m - 1) as nat), f[m - 1]) } }
// an element that simplification leaves as it is
pub open spec fn skind(c: CST) -> N { if nk(c) is BackSlash { if kids(c).len() == 0 { N::Invalid } else { N::Text } } else { nk(c) } }
