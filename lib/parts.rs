// Parts of texts.  TRUSTED (std): that str's split, trim_end_matches and the iterator over the parts are these.
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::<char>::empty()] }
  else if s.last() == c { pieces(s.drop_last(), c).push(Seq::<char>::empty()) }
  else { let p = pieces(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
pub proof fn lemma_pieces_some(s: Seq<char>, c: char) ensures pieces(s, c).len() > 0 decreases s.len() { if s.len() > 0 { lemma_pieces_some(s.drop_last(), c); } }
pub proof fn lemma_pieces_one(s: Seq<char>, c: char) requires !s.contains(c) ensures pieces(s, c) == seq![s] decreases s.len()
{ if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } else {
    let t = s.drop_last(); assert(s[s.len() - 1] != c); assert forall|i: int| 0 <= i < t.len() implies t[i] != c by { assert(s[i] == t[i]); assert(s.contains(s[i])); } 
    lemma_pieces_one(t, c); assert(t.push(s.last()) =~= s); assert(pieces(t, c).drop_last().push(pieces(t, c).last().push(s.last())) =~= seq![s]); } }
// the last part
pub proof fn lemma_pieces_last(a: Seq<char>, c: char, b: Seq<char>) requires !b.contains(c) ensures pieces(a + (seq![c] + b), c) == pieces(a, c).push(b) decreases b.len()
{ let s = a + (seq![c] + b);
  if b.len() == 0 { assert(b =~= Seq::<char>::empty()); assert(s.drop_last() =~= a); }
  else { let d = b.drop_last(); assert(b[b.len() - 1] != c); assert forall|i: int| 0 <= i < d.len() implies d[i] != c by { assert(b[i] == d[i]); assert(b.contains(b[i])); }
    assert(s.drop_last() =~= a + (seq![c] + d)); lemma_pieces_last(a, c, d); assert(d.push(b.last()) =~= b); let p = pieces(s.drop_last(), c); assert(p.drop_last().push(p.last().push(s.last())) =~= pieces(a, c).push(b)); } }
pub proof fn lemma_pieces_two(a: Seq<char>, c: char, b: Seq<char>) requires !a.contains(c), !b.contains(c) ensures pieces(a + (seq![c] + b), c) == seq![a, b]
{ lemma_pieces_last(a, c, b); lemma_pieces_one(a, c); assert(seq![a].push(b) =~= seq![a, b]); }
pub open spec fn trimmed_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trimmed_end(s.drop_last(), c) } else { s } }
pub struct VParts<'a> { pub of: &'a str, pub rest: Ghost<Seq<Seq<char>>> }
impl<'a> VParts<'a> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>) ensures match r { Some(x) => old(self).rest@.len() > 0 && x@ == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1), None => old(self).rest@.len() == 0 && final(self).rest@ == old(self).rest@ } { unimplemented!() }
  #[verifier::external_body] pub fn nth(&mut self, n: usize) -> (r: Option<&'a str>) ensures match r { Some(x) => old(self).rest@.len() > n && x@ == old(self).rest@[n as int] && final(self).rest@ == old(self).rest@.skip(n + 1), None => old(self).rest@.len() <= n && final(self).rest@.len() == 0 } { unimplemented!() }
  #[verifier::external_body] pub fn last(self) -> (r: Option<&'a str>) ensures match r { Some(x) => self.rest@.len() > 0 && x@ == self.rest@.last(), None => self.rest@.len() == 0 } { unimplemented!() }
}
pub trait VPieces { fn vsplit<'a>(&'a self, c: char) -> (r: VParts<'a>); fn vtrim_end<'a>(&'a self, c: char) -> (r: &'a str); }
impl VPieces for str {
  #[verifier::external_body] fn vsplit<'a>(&'a self, c: char) -> (r: VParts<'a>) ensures r.rest@ == pieces(self@, c) { unimplemented!() }
  #[verifier::external_body] fn vtrim_end<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == trimmed_end(self@, c) { unimplemented!() }
}
impl VPieces for String {
  #[verifier::external_body] fn vsplit<'a>(&'a self, c: char) -> (r: VParts<'a>) ensures r.rest@ == pieces(self@, c) { unimplemented!() }
  #[verifier::external_body] fn vtrim_end<'a>(&'a self, c: char) -> (r: &'a str) ensures r@ == trimmed_end(self@, c) { unimplemented!() }
}
