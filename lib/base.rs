// Shims shared by every unit.  Everything marked external_body / axiom here is TRUSTED.
pub struct VErr { pub n: u8 }
#[verifier::external] impl core::fmt::Debug for VErr { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub type Result<T, E = VErr> = core::result::Result<T, E>;
// an error value; its text is never constrained
#[verifier::external_body] pub fn vx_err() -> (r: VErr) { unimplemented!() }
// panic!/unreachable!/todo!: must be proved unreachable
#[verifier::external_body] pub fn vx_never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_assert(b: bool) requires b { unimplemented!() }
// format!("{}{}", a, b) is a left fold of string concatenations
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub uninterp spec fn debugged<T>(a: T) -> Seq<char>;
#[verifier::external_body] pub fn vx_debug<T>(a: &T) -> (r: String) ensures r@ == debugged(*a) { unimplemented!() }
pub uninterp spec fn hexed<T>(a: T) -> Seq<char>;
#[verifier::external_body] pub fn vx_hex<T>(a: &T) -> (r: String) ensures r@ == hexed(*a) { unimplemented!() }
// derived Clone yields an equal value
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: T) { unimplemented!() } }
pub trait VFull { type O: ?Sized; spec fn vx_fullp(&self, r: &Self::O) -> bool; fn vx_full(&self) -> (r: &Self::O) ensures self.vx_fullp(r); }
impl VFull for String { type O = str; open spec fn vx_fullp(&self, r: &str) -> bool { r@ == self@ }
  fn vx_full(&self) -> (r: &str) { self.as_str() } }
pub trait VToString { spec fn vx_text(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl VToString for str { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for String { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for char { open spec fn vx_text(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for &str { open spec fn vx_text(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for &String { open spec fn vx_text(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub trait VPushStr { fn vpush_str(&mut self, t: &str); }
impl VPushStr for String { #[verifier::external_body] fn vpush_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() } }
// comparison with a text literal
pub trait VPlus { fn vx_plus(self, t: &str) -> String; }
impl VPlus for String { #[verifier::external_body] fn vx_plus(self, t: &str) -> (r: String) ensures r@ == self@ + t@ { unimplemented!() } }
pub trait VStrEq { spec fn vx_eqt(&self) -> Seq<char>; fn vx_eq(&self, o: &str) -> (b: bool) ensures b == (self.vx_eqt() == o@); }
impl VStrEq for str { open spec fn vx_eqt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { unimplemented!() } }
impl VStrEq for String { open spec fn vx_eqt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { unimplemented!() } }
// two &str are equal as values exactly when their characters are
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
  ensures #![trigger a@, b@] (a@ == b@) == (a == b);
pub broadcast axiom fn axiom_string_ext(a: String, b: String)
  ensures #![trigger a@, b@] (a@ == b@) == (a == b);
// iteration by index over what a `for` loop iterates over
pub trait VSeq { type Item; spec fn vx_n(&self) -> nat; spec fn vx_item(&self, i: int, r: Self::Item) -> bool;
  fn vx_len(&self) -> (n: usize) ensures n == self.vx_n();
  fn vx_get(&self, i: usize) -> (r: Self::Item) requires i < self.vx_n() ensures self.vx_item(i as int, r); }
impl<T> VSeq for Vec<T> { type Item = T; open spec fn vx_n(&self) -> nat { self@.len() } open spec fn vx_item(&self, i: int, r: T) -> bool { r == self@[i] }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: T) { unimplemented!() } }
impl<'a, T> VSeq for &'a [T] { type Item = &'a T; open spec fn vx_n(&self) -> nat { (*self)@.len() } open spec fn vx_item(&self, i: int, r: &'a T) -> bool { *r == (*self)@[i] }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
impl<'a, T> VSeq for &'a Vec<T> { type Item = &'a T; open spec fn vx_n(&self) -> nat { (*self)@.len() } open spec fn vx_item(&self, i: int, r: &'a T) -> bool { *r == (*self)@[i] }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
pub trait VRef<T> { spec fn vx_refp(&self) -> Seq<T>; fn vx_ref(&self) -> (r: &[T]) ensures r@ == self.vx_refp(); }
impl<T> VRef<T> for Vec<T> { open spec fn vx_refp(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_ref(&self) -> (r: &[T]) { unimplemented!() } }
impl<T> VRef<T> for [T] { open spec fn vx_refp(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_ref(&self) -> (r: &[T]) { unimplemented!() } }
pub trait VToVec<T> { spec fn vx_vecp(&self) -> Seq<T>; fn vto_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_vecp(); }
impl<T> VToVec<T> for [T] { open spec fn vx_vecp(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VExtend<T> { fn vx_extend(&mut self, o: Vec<T>); }
impl<T> VExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() } }
pub trait VErrOr<T> { fn vok_or_else<F: FnOnce() -> VErr>(self, f: F) -> (r: Result<T>); }
impl<T> VErrOr<T> for Option<T> { fn vok_or_else<F: FnOnce() -> VErr>(self, f: F) -> (r: Result<T>) ensures self matches Some(x) ==> r == Ok::<T, VErr>(x), self is None ==> r is Err { match self { Some(x) => Ok(x), None => Err(vx_err()) } } }
// more of std: how texts begin and end, and small helpers
pub trait VPat { spec fn vx_pat(&self) -> Seq<char>; }
impl VPat for &str { open spec fn vx_pat(&self) -> Seq<char> { (*self)@ } }
impl VPat for &String { open spec fn vx_pat(&self) -> Seq<char> { (*self)@ } }
impl VPat for char { open spec fn vx_pat(&self) -> Seq<char> { seq![*self] } }
pub open spec fn vx_begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn vx_finishes(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn vx_left(s: Seq<char>, n: int, r: Seq<char>) -> bool { 0 <= n <= s.len() && r == s.skip(n) }
// the first n are the leading occurrences of c
pub open spec fn vx_trimmed(s: Seq<char>, c: char, n: int) -> bool { 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> s[i] == c) && (n < s.len() ==> s[n] != c) }
// the last n are the trailing occurrences of c
pub open spec fn vx_trimmed_back(s: Seq<char>, c: char, n: int) -> bool { 0 <= n <= s.len() && (forall|i: int| s.len() - n <= i < s.len() ==> s[i] == c) && (n < s.len() ==> s[s.len() - n - 1] != c) }
pub open spec fn vx_occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i <= s.len() - p.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn vx_within(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| #[trigger] vx_occurs(s, p, i) }
// White_Space of Unicode
pub uninterp spec fn vx_wide_space(c: char) -> bool;
pub open spec fn vx_space(c: char) -> bool { c == ' ' || '\t' <= c <= '\r' || c >= '\u{80}' && vx_wide_space(c) }
pub open spec fn vx_spaces(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> vx_space(#[trigger] s[i]) }
// r is s without the white space at its start, at its end
pub open spec fn vx_stripped(s: Seq<char>, r: Seq<char>, a: bool, b: bool) -> bool {
  exists|x: Seq<char>, y: Seq<char>| s == x + r + y && #[trigger] vx_spaces(x) && #[trigger] vx_spaces(y) && (a || x.len() == 0) && (b || y.len() == 0)
    && (r.len() == 0 || (a ==> !vx_space(r[0])) && (b ==> !vx_space(r.last())))
}
pub trait VAffix { spec fn vx_whole(&self) -> Seq<char>;
  fn vx_starts<P: VPat>(&self, p: P) -> (b: bool) ensures b == vx_begins(self.vx_whole(), p.vx_pat());
  fn vx_ends<P: VPat>(&self, p: P) -> (b: bool) ensures b == vx_finishes(self.vx_whole(), p.vx_pat());
  fn vx_unprefix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures match r { Some(t) => self.vx_whole() == p.vx_pat() + t@, None => !vx_begins(self.vx_whole(), p.vx_pat()) };
  fn vx_unsuffix<P: VPat>(&self, p: P) -> (r: Option<&str>) ensures match r { Some(t) => self.vx_whole() == t@ + p.vx_pat(), None => !vx_finishes(self.vx_whole(), p.vx_pat()) };
  fn vx_trim_front<P: VPat>(&self, p: P) -> (r: &str) ensures vx_left(self.vx_whole(), self.vx_whole().len() - r@.len(), r@), p.vx_pat().len() == 1 ==> vx_trimmed(self.vx_whole(), p.vx_pat()[0], self.vx_whole().len() - r@.len());
  fn vx_trim_back<P: VPat>(&self, p: P) -> (r: &str) ensures r@.len() <= self.vx_whole().len(), r@ == self.vx_whole().take(r@.len() as int), p.vx_pat().len() == 1 ==> vx_trimmed_back(self.vx_whole(), p.vx_pat()[0], self.vx_whole().len() - r@.len());
  fn vx_char_count(&self) -> (n: usize) ensures n == self.vx_whole().len();
  fn vx_char_vec(&self) -> (r: Vec<char>) ensures r@ == self.vx_whole();
  fn vx_has<P: VPat>(&self, p: P) -> (b: bool) ensures b == vx_within(self.vx_whole(), p.vx_pat());
  fn vx_trim(&self) -> (r: &str) ensures vx_stripped(self.vx_whole(), r@, true, true);
  fn vx_trim_start(&self) -> (r: &str) ensures vx_stripped(self.vx_whole(), r@, true, false);
  fn vx_trim_end(&self) -> (r: &str) ensures vx_stripped(self.vx_whole(), r@, false, true);
}
impl VAffix for str { open spec fn vx_whole(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_char_vec(&self) -> (r: Vec<char>) { unimplemented!() }
  #[verifier::external_body] fn vx_has<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_front<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_back<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_char_count(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_starts<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_ends<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_unprefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body] fn vx_unsuffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() } }
impl VAffix for String { open spec fn vx_whole(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_char_vec(&self) -> (r: Vec<char>) { unimplemented!() }
  #[verifier::external_body] fn vx_has<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_front<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_back<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_char_count(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_starts<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_ends<P: VPat>(&self, p: P) -> (b: bool) { unimplemented!() }
  #[verifier::external_body] fn vx_unprefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body] fn vx_unsuffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() } }
pub trait VDeref { spec fn vx_inner(&self) -> Option<Seq<char>>; fn vx_deref(&self) -> (r: Option<&str>) ensures match (r, self.vx_inner()) { (Some(a), Some(b)) => a@ == b, (None, None) => true, _ => false }; }
impl VDeref for Option<String> { open spec fn vx_inner(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vx_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ core::result::Result::<T, E>::is_ok_and ](a: core::result::Result<T, E>, f: F) -> (b: bool)
  requires a matches Ok(x) ==> f.requires((x,)) ensures a matches Ok(x) ==> f.ensures((x,), b), a is Err ==> !b;
pub assume_specification<T>[ bool::then_some::<T> ](a: bool, x: T) -> (r: Option<T>) ensures r == (if a { Some(x) } else { None });
pub assume_specification<T>[ core::mem::replace::<T> ](a: &mut T, x: T) -> (r: T) ensures r == *old(a), *final(a) == x;
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E>[ core::result::Result::<T, E>::unwrap_or ](a: core::result::Result<T, E>, x: T) -> (r: T) ensures r == (match a { Ok(y) => y, Err(_) => x });
pub assume_specification<T>[ <[T]>::reverse ](a: &mut [T]) ensures final(a)@ == old(a)@.reverse();
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification[ String::len ](a: &String) -> (n: usize) ensures n == vstd::utf8::encode_utf8(a@).len(), n <= 0x7fff_ffff_ffff_ffff;
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (b: bool) ensures b == ('0' <= *c <= '9');
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (b: bool) ensures b == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z');
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (b: bool) ensures b == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z' || '0' <= *c <= '9');
pub trait VTake: Sized { spec fn vx_none(&self) -> bool; fn vx_take(a: &mut Self) -> (r: Self) ensures r == *old(a), final(a).vx_none(); }
impl VTake for String { open spec fn vx_none(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_take(a: &mut String) -> (r: String) { unimplemented!() } }
impl<T> VTake for Vec<T> { open spec fn vx_none(&self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn vx_take(a: &mut Vec<T>) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VTake for Option<T> { open spec fn vx_none(&self) -> bool { *self is None } #[verifier::external_body] fn vx_take(a: &mut Option<T>) -> (r: Option<T>) { unimplemented!() } }
broadcast use {axiom_str_ext, axiom_string_ext};
