@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/lsfns.vx
@slices
@rename extend_from_slice vextend
@rename windows vwindows
@rename split vsplit
@rename collect vcollect
@rename copied vcopied
@rename unwrap_or_default vor_default
@rename parse vparse
@rename drain vdrain
@prelude
#[verifier::external_body] pub struct Project { x: u8 }
#[verifier::external_body] pub struct Stdin { x: u8 }
#[verifier::external_body] pub fn stdin() -> (r: Stdin) { unimplemented!() }
impl Stdin {
  #[verifier::external_body] pub fn read<const M: usize>(&mut self, b: &mut [u8; M], io: &mut VIo) -> (r: Result<usize>)
    ensures final(io).os == old(io).os, final(io).sent == old(io).sent, final(io).done == old(io).done, lost(*old(io)) ==> lost(*final(io)), r is Err ==> lost(*final(io)),
      r matches Ok(n) ==> n <= M && n <= unread(*old(io)).len() && unread(*final(io)) == unread(*old(io)).skip(n as int) && final(b)@.take(n as int) == unread(*old(io)).take(n as int) && (n == 0 ==> M == 0 || unread(*old(io)).len() == 0) && lost(*final(io)) == lost(*old(io)) { unimplemented!() }
}
// std: bytes, texts and their parts.  TRUSTED
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn split(s: Seq<char>, by: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn i32_of(s: Seq<char>) -> Option<i32>;
pub uninterp spec fn decode(b: Seq<u8>) -> Option<J>;
#[verifier::external_body] pub broadcast proof fn axiom_vec_len(v: Vec<u8>) ensures #![trigger v@] v@.len() <= isize::MAX { }
#[verifier::external_body] pub fn from_utf8(b: &[u8]) -> (r: Result<&str>) ensures match r { Ok(s) => utf8(b@) == Some(s@) && bytes(s@) == b@, Err(_) => utf8(b@) is None } { unimplemented!() }
pub trait FromJson: Sized { spec fn made(&self, j: J) -> bool; }
impl FromJson for Value { open spec fn made(&self, j: J) -> bool { jv(*self) == j } }
#[verifier::external_body] pub fn from_slice<T: FromJson>(b: &[u8]) -> (r: Result<T>) ensures match r { Ok(v) => decode(b@) matches Some(j) && v.made(j), Err(_) => decode(b@) is None } { unimplemented!() }
pub trait VPart { spec fn vx_all(&self) -> Seq<u8>;
  fn vx_to(&self, n: usize) -> (r: &[u8]) requires n <= self.vx_all().len() ensures r@ == self.vx_all().take(n as int);
  fn vx_from(&self, n: usize) -> (r: &[u8]) requires n <= self.vx_all().len() ensures r@ == self.vx_all().skip(n as int);
  fn vx_part(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.vx_all().len() ensures r@ == self.vx_all().subrange(a as int, b as int);
}
impl VPart for Vec<u8> { open spec fn vx_all(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_part(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
impl VPart for [u8] { open spec fn vx_all(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_part(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
impl<const M: usize> VPart for [u8; M] { open spec fn vx_all(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn vx_part(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } }
pub struct VWindows<'a> { pub of: &'a Vec<u8>, pub n: usize }
impl<'a> VSeq for VWindows<'a> { type Item = &'a [u8]; open spec fn vx_n(&self) -> nat { if self.of@.len() >= self.n { (self.of@.len() - self.n + 1) as nat } else { 0 } } open spec fn vx_item(&self, i: int, r: &'a [u8]) -> bool { r@ == self.of@.subrange(i, i + self.n) }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: &'a [u8]) { unimplemented!() } }
pub trait VBuffer { spec fn vx_buf(&self) -> Seq<u8>;
  fn vextend(&mut self, x: &[u8]) ensures final(self).vx_buf() == old(self).vx_buf() + x@;
  fn vdrain(&mut self, x: core::ops::Range<usize>) requires x.start <= x.end <= old(self).vx_buf().len() ensures final(self).vx_buf() == old(self).vx_buf().take(x.start as int) + old(self).vx_buf().skip(x.end as int);
  fn vwindows<'a>(&'a self, n: usize) -> (r: VWindows<'a>) requires n > 0 ensures r.of@ == self.vx_buf(), r.n == n; }
impl VBuffer for Vec<u8> { open spec fn vx_buf(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vextend(&mut self, x: &[u8]) { unimplemented!() } #[verifier::external_body] fn vdrain(&mut self, x: core::ops::Range<usize>) { unimplemented!() } #[verifier::external_body] fn vwindows<'a>(&'a self, n: usize) -> (r: VWindows<'a>) { unimplemented!() } }
pub trait VEqB { fn vx_eqb<const M: usize>(&self, x: &[u8; M]) -> bool; }
impl VEqB for [u8] { #[verifier::external_body] fn vx_eqb<const M: usize>(&self, x: &[u8; M]) -> (b: bool) ensures b == (self@ == x@) { unimplemented!() } }
pub struct VSplit<'a> { pub of: &'a str, pub by: Ghost<Seq<char>> }
impl<'a> VSeq for VSplit<'a> { type Item = &'a str; open spec fn vx_n(&self) -> nat { split(self.of@, self.by@).len() } open spec fn vx_item(&self, i: int, r: &'a str) -> bool { r@ == split(self.of@, self.by@)[i] }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: &'a str) { unimplemented!() } }
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl<'a> VSplit<'a> { #[verifier::external_body] pub fn vcollect(self) -> (r: Vec<&'a str>) ensures texts(r@) == split(self.of@, self.by@), r@.len() == split(self.of@, self.by@).len(), r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(self.of@, self.by@)[i] { unimplemented!() } }
pub trait VText { fn vsplit<'a>(&'a self, by: &str) -> (r: VSplit<'a>); fn vparse<T: VParse>(&self) -> Result<T>; }
impl VText for str { #[verifier::external_body] fn vsplit<'a>(&'a self, by: &str) -> (r: VSplit<'a>) ensures r.of@ == self@, r.by@ == by@, split(self@, by@).len() > 0 { unimplemented!() }
  #[verifier::external_body] fn vparse<T: VParse>(&self) -> (r: Result<T>) ensures match r { Ok(v) => T::read(self@) == Some(v), Err(_) => T::read(self@) is None } { unimplemented!() } }
pub trait VParse: Sized { spec fn read(s: Seq<char>) -> Option<Self>; }
impl VParse for i32 { open spec fn read(s: Seq<char>) -> Option<i32> { i32_of(s) } }
pub trait VGetAt<T> { spec fn vx_gets(&self) -> Seq<T>; fn vget(&self, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < self.vx_gets().len(), r matches Some(x) ==> *x == self.vx_gets()[i as int]; }
impl<T> VGetAt<T> for Vec<T> { open spec fn vx_gets(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vget(&self, i: usize) -> (r: Option<&T>) { unimplemented!() } }
pub trait VCopied<T> { fn vcopied(self) -> (r: Option<T>); }
impl<'a, T> VCopied<T> for Option<&'a T> { #[verifier::external_body] fn vcopied(self) -> (r: Option<T>) ensures r is Some <==> self is Some, self matches Some(x) ==> r == Some(*x) { unimplemented!() } }
pub trait VOrDefault<'a> { fn vor_default(self) -> (r: &'a str); }
impl<'a> VOrDefault<'a> for Option<&'a str> { #[verifier::external_body] fn vor_default(self) -> (r: &'a str) ensures r@ == (match self { Some(s) => s@, None => Seq::<char>::empty() }) { unimplemented!() } }
broadcast use {axiom_vec_len};
// the messages of a stream of bytes
pub open spec fn is_sep(b: Seq<u8>, i: int) -> bool { b.subrange(i, i + 4) == seq![13u8, 10u8, 13u8, 10u8] }
// where the first blank line at or after i begins
pub open spec fn find(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i { if i + 4 > b.len() { None } else if is_sep(b, i) { Some(i) } else { find(b, i + 1) } }
pub enum Head { Bad, Skip, Length(int) }
pub open spec fn header(line: Seq<char>, so_far: int) -> Option<int> {
  let p = split(line, ": "@);
  if p[0] == "Content-Length"@ { match i32_of(if p.len() > 1 { p[1] } else { Seq::empty() }) { Some(n) => Some(n as int), None => None } } else { Some(so_far) }
}
// the length that the first n header lines announce: -1 if they do not; none if one of them is malformed
pub open spec fn announced_length(lines: Seq<Seq<char>>, n: int) -> Option<int> decreases n { if n <= 0 { Some(-1) } else { match announced_length(lines, n - 1) { Some(c) => header(lines[n - 1], c), None => None } } }
pub open spec fn head(b: Seq<u8>) -> Head {
  match utf8(b) { None => Head::Bad, Some(s) => { let lines = split(s, "\r\n"@); match announced_length(lines, lines.len() as int) { None => Head::Bad, Some(n) => if n < 0 { Head::Skip } else { Head::Length(n) } } } }
}
pub open spec fn step(b: Seq<u8>) -> Step { match decode(b) { Some(j) => Step::Msg(j), None => Step::Junk } }
pub open spec fn frames(b: Seq<u8>) -> Seq<Step> decreases b.len() {
  match find(b, 0) {
    None => Seq::empty(),
    Some(e) => if !(0 <= e <= b.len() - 4) { Seq::empty() } else { match head(b.take(e)) {
      Head::Bad => seq![Step::Stop],
      Head::Skip => frames(b.skip(e + 4)),
      Head::Length(n) => if n < 0 || b.len() < e + 4 + n { Seq::empty() } else { seq![step(b.subrange(e + 4, e + 4 + n))] + frames(b.skip(e + 4 + n)) },
    } },
  }
}
pub proof fn lemma_find(b: Seq<u8>, u: Seq<u8>, i: int) requires 0 <= i ensures find(b, i) matches Some(e) ==> i <= e <= b.len() - 4 && find(b + u, i) == Some(e) && (b + u).take(e) =~= b.take(e) decreases b.len() - i
{ if i + 4 <= b.len() { assert((b + u).subrange(i, i + 4) =~= b.subrange(i, i + 4)); lemma_find(b, u, i + 1); } }
pub proof fn lemma_lines(lines: Seq<Seq<char>>, n: int) requires 0 <= n < lines.len() ensures announced_length(lines, n + 1) == (match announced_length(lines, n) { Some(c) => header(lines[n], c), None => None }), announced_length(lines, n) is None ==> announced_length(lines, lines.len() as int) is None, announced_length(lines, n + 1) is None ==> announced_length(lines, lines.len() as int) is None
{ lemma_none(lines, n, lines.len() as int); lemma_none(lines, n + 1, lines.len() as int); }
pub proof fn lemma_none(lines: Seq<Seq<char>>, n: int, m: int) requires n <= m ensures announced_length(lines, n) is None ==> announced_length(lines, m) is None decreases m - n { if n < m { lemma_none(lines, n, m - 1); } }
// what the buffer holds decides the next step, whatever follows it
pub proof fn lemma_next(b: Seq<u8>, u: Seq<u8>) ensures match find(b, 0) { None => true, Some(e) => 0 <= e <= b.len() - 4 && (match head(b.take(e)) {
    Head::Bad => frames(b + u) == seq![Step::Stop],
    Head::Skip => frames(b + u) == frames(b.skip(e + 4) + u),
    Head::Length(n) => n >= 0 && b.len() >= e + 4 + n ==> frames(b + u) == seq![step(b.subrange(e + 4, e + 4 + n))] + frames(b.skip(e + 4 + n) + u),
  }) }
{
  lemma_find(b, u, 0);
  match find(b, 0) { None => {}, Some(e) => { match head(b.take(e)) { Head::Bad => {}, Head::Skip => { assert((b + u).skip(e + 4) =~= b.skip(e + 4) + u); }, Head::Length(n) => { if n >= 0 && b.len() >= e + 4 + n { assert((b + u).skip(e + 4 + n) =~= b.skip(e + 4 + n) + u); assert((b + u).subrange(e + 4, e + 4 + n) =~= b.subrange(e + 4, e + 4 + n)); } } } } }
}
// the messages handled so far and those still to come are the messages of the whole stream
pub open spec fn on_track(all: Seq<Step>, b: Seq<u8>, io: VIo) -> bool { all =~= done(io) + frames(b + unread(io)) }
@fn brack_language_server::server::Server::dispatch io external
  ensures done(*final(vx_io)) == done(*old(vx_io)).push(Step::Msg(jv($1))), final(vx_io).is == old(vx_io).is, r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_parse_error_response io external
  ensures done(*final(vx_io)) == done(*old(vx_io)).push(Step::Junk), final(vx_io).is == old(vx_io).is, r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::run io
  ensures
    r is Ok ==> done(*final(vx_io)) =~= done(*old(vx_io)) + frames(unread(*old(vx_io))),
    r is Err ==> broken(*final(vx_io)) || lost(*final(vx_io)) || done(*final(vx_io)).push(Step::Stop) =~= done(*old(vx_io)) + frames(unread(*old(vx_io))),
@hook entry
  let ghost vx_all = done(*vx_io) + frames(unread(*vx_io));
  proof { assert(Seq::<u8>::empty() + unread(*vx_io) =~= unread(*vx_io)); }
@loop 0
  invariant_except_break vx_all == done(*old(vx_io)) + frames(unread(*old(vx_io))), on_track(vx_all, buffer@, *vx_io), frames(buffer@) == Seq::<Step>::empty()
  ensures vx_all =~= done(*vx_io)
  decreases unread(*vx_io).len()
@hook loop 0 entry
  let ghost vx_b = buffer@;
  let ghost vx_u = unread(*vx_io);
  proof { assert(vx_b + Seq::<u8>::empty() =~= vx_b); if vx_u.len() == 0 { assert(vx_u =~= Seq::<u8>::empty()); } }
@hook after call vextend 0
  proof { assert(vx_b + vx_u =~= buffer@ + unread(*vx_io)); }
@loop 1
  invariant_except_break on_track(vx_all, buffer@, *vx_io)
  invariant vx_all == done(*old(vx_io)) + frames(unread(*old(vx_io))), unread(*vx_io).len() < vx_u.len(),
  ensures on_track(vx_all, buffer@, *vx_io), frames(buffer@) == Seq::<Step>::empty(), unread(*vx_io).len() < vx_u.len(),
  decreases buffer@.len()
@hook loop 1 entry
  proof { lemma_next(buffer@, unread(*vx_io)); lemma_find(buffer@, unread(*vx_io), 0); }
@loop 2
  invariant vx_s2.of@ == buffer@, vx_s2.n == 4, vx_i2 <= buffer@.len(), vx_c2 is None ==> find(buffer@, 0) == find(buffer@, vx_i2 as int), vx_c2 matches Some(e) ==> e == vx_i2 && find(buffer@, 0) == Some(e as int)
  decreases buffer@.len() - vx_i2 + (if vx_c2 is None { 1int } else { 0int })
@loop 3
  invariant vx_i3 <= vx_s3.vx_n(), announced_length(split(vx_s3.of@, vx_s3.by@), vx_i3 as int) == Some(content_length as int),
    vx_s3.by@ == "\r\n"@, utf8(buffer@.take(header_end as int)) == Some(vx_s3.of@), vx_all == done(*old(vx_io)) + frames(unread(*old(vx_io))),
    head(buffer@.take(header_end as int)) is Bad ==> vx_all =~= done(*vx_io).push(Step::Stop),
  decreases vx_s3.vx_n() - vx_i3
@hook loop 3 item
  proof { lemma_lines(split(vx_s3.of@, vx_s3.by@), vx_i3 - 1); }
