// The file system, as far as a build sees it.  TRUSTED (std).
// what was written so far, in order; whether an operation failed
#[verifier::external_body] pub struct VOs { x: u8 }
pub uninterp spec fn oswrites(o: VOs) -> Seq<(Seq<char>, Seq<char>)>;
pub uninterp spec fn osfailed(o: VOs) -> bool;
pub struct VIo { pub os: VOs, pub out: Ghost<Seq<Seq<char>>> }
// the lines printed so far
pub open spec fn printed(io: VIo) -> Seq<Seq<char>> { io.out@ }
#[verifier::external_body] pub fn vx_println(s: String, io: &mut VIo) ensures final(io).os == old(io).os, printed(*final(io)) == printed(*old(io)).push(s@) { unimplemented!() }
pub open spec fn writes(io: VIo) -> Seq<(Seq<char>, Seq<char>)> { oswrites(io.os) }
pub open spec fn failed(io: VIo) -> bool { osfailed(io.os) }
// a path and its parts: None where it has none; their texts: None where they are not valid text
#[verifier::external_body] pub struct OsStr { x: u8 }
pub uninterp spec fn ptext(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn otext(o: OsStr) -> Option<Seq<char>>;
pub uninterp spec fn pstem(p: PathBuf) -> Option<OsStr>;
pub uninterp spec fn pext(p: PathBuf) -> Option<OsStr>;
pub uninterp spec fn pname(p: PathBuf) -> Option<OsStr>;
pub open spec fn stem(p: PathBuf) -> Option<Seq<char>> { match pstem(p) { Some(o) => otext(o), None => None } }
pub open spec fn name(p: PathBuf) -> Option<Seq<char>> { match pname(p) { Some(o) => otext(o), None => None } }
pub open spec fn has_ext(p: PathBuf, e: Seq<char>) -> bool { pext(p) matches Some(o) && otext(o) == Some(e) }
pub open spec fn same_os(a: Option<&OsStr>, b: Option<OsStr>) -> bool { match (a, b) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false } }
impl PathBuf {
  #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match (r, ptext(*self)) { (Some(s), Some(t)) => s@ == t, (None, None) => true, _ => false } { unimplemented!() }
  #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures same_os(r, pstem(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures same_os(r, pname(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures same_os(r, pext(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn join<S: VToString>(&self, s: S) -> (r: PathBuf) ensures r == joined(*self, s.vx_text()) { unimplemented!() }
  #[verifier::external_body] pub fn new<S: VToString + ?Sized>(s: &S) -> (r: &PathBuf) ensures *r == named_by(s.vx_text()) { unimplemented!() }
  #[verifier::external_body] pub fn from<S: VToString>(s: S) -> (r: PathBuf) ensures r == named_by(s.vx_text()) { unimplemented!() }
}
pub uninterp spec fn joined(p: PathBuf, s: Seq<char>) -> PathBuf;
impl VToString for PathBuf { open spec fn vx_text(&self) -> Seq<char> { ptext(*self)->Some_0 } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for &PathBuf { open spec fn vx_text(&self) -> Seq<char> { ptext(**self)->Some_0 } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub broadcast axiom fn axiom_named_text(t: Seq<char>) ensures #![trigger named_by(t)] ptext(named_by(t)) == Some(t);
pub broadcast axiom fn axiom_joined(p: PathBuf, s: Seq<char>) ensures #![trigger joined(p, s)] ptext(p) matches Some(t) ==> (t.len() > 0 && t.last() != '/' && (s.len() == 0 || s[0] != '/') ==> ptext(joined(p, s)) == Some(t + "/"@ + s));
pub broadcast axiom fn axiom_stem(p: PathBuf) ensures #![trigger pstem(p)] stem(p) matches Some(t) ==> t.len() > 0 && !t.contains('/');
impl OsStr {
  #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match (r, otext(*self)) { (Some(s), Some(t)) => s@ == t, (None, None) => true, _ => false } { unimplemented!() }
  #[verifier::external_body] pub fn vx_eq(&self, s: &str) -> (b: bool) ensures b == (otext(*self) == Some(s@)) { unimplemented!() }
}
pub trait VEqOs { spec fn vx_os(&self) -> Option<OsStr>; fn vx_eqo(&self, s: &str) -> (b: bool) ensures b == (self.vx_os() matches Some(o) && otext(o) == Some(s@)); }
impl<'a> VEqOs for Option<&'a OsStr> { open spec fn vx_os(&self) -> Option<OsStr> { match self { Some(o) => Some(**o), None => None } } #[verifier::external_body] fn vx_eqo(&self, s: &str) -> (b: bool) { unimplemented!() } }
// the name of the file a path stands for, and what is in that file
pub uninterp spec fn pathname<P>(p: P) -> PathBuf;
pub uninterp spec fn named_by(s: Seq<char>) -> PathBuf;
pub broadcast axiom fn axiom_pathname_str<'a>(s: &'a str) ensures #![trigger pathname(s)] pathname(s) == named_by(s@);
pub broadcast axiom fn axiom_pathname(p: PathBuf) ensures #![trigger pathname(p)] pathname(p) == p && pathname(&p) == p;
pub uninterp spec fn filetext(p: PathBuf) -> Option<Seq<char>>;
impl<'a> AsRef<Path> for &'a str { }
impl<'a> AsRef<Path> for &'a String { }
pub broadcast axiom fn axiom_pathname_string<'a>(s: &'a String) ensures #![trigger pathname(s)] pathname(s) == named_by(s@);
#[verifier::external_body] pub struct File { x: u8 }
pub uninterp spec fn opened_file(f: File) -> PathBuf;
impl File {
  #[verifier::external_body] pub fn open<P: AsRef<Path>>(p: &P) -> (r: Result<File>) ensures r matches Ok(f) ==> opened_file(f) == pathname(*p), r is Err ==> filetext(pathname(*p)) is None { unimplemented!() }
  #[verifier::external_body] pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize>)
    ensures r is Ok ==> (filetext(opened_file(*old(self))) matches Some(t) && final(s)@ == old(s)@ + t), r is Err ==> filetext(opened_file(*old(self))) is None { unimplemented!() }
}
// a folder's entries; an entry that cannot be read is None
pub uninterp spec fn listing(d: Seq<char>, done: Seq<(Seq<char>, Seq<char>)>) -> Seq<Option<PathBuf>>;
pub struct DirEntry { pub p: PathBuf }
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == self.p { unimplemented!() } }
#[verifier::external_body] pub struct ReadDir { x: u8 }
pub uninterp spec fn in_dir(r: ReadDir) -> Seq<Option<PathBuf>>;
impl VSeq for ReadDir { type Item = Result<DirEntry>; open spec fn vx_n(&self) -> nat { in_dir(*self).len() } open spec fn vx_item(&self, i: int, r: Result<DirEntry>) -> bool { match r { Ok(e) => in_dir(*self)[i] == Some(e.p), Err(_) => in_dir(*self)[i] is None } }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Result<DirEntry>) { unimplemented!() } }
pub open spec fn same_files(a: VIo, b: VIo) -> bool { a.out == b.out && writes(a) == writes(b) && (failed(a) ==> failed(b)) }
pub mod fs {
  use super::*;
  #[verifier::external_body] pub fn read<P: AsRef<Path>>(p: P) -> (r: Result<Vec<u8>>) ensures r is Ok <==> content(p) is Some, r matches Ok(b) ==> content(p) == Some(b@) { unimplemented!() }
  #[verifier::external_body] pub fn write<P: VToString, C: VToString>(p: P, c: C, io: &mut VIo) -> (r: Result<()>) ensures final(io).out == old(io).out, failed(*old(io)) ==> failed(*final(io)), r is Ok ==> writes(*final(io)) == writes(*old(io)).push((p.vx_text(), c.vx_text())), r is Err ==> failed(*final(io)) { unimplemented!() }
  #[verifier::external_body] pub fn create_dir_all<P: VToString>(p: P, io: &mut VIo) -> (r: Result<()>) ensures same_files(*old(io), *final(io)), r is Err ==> failed(*final(io)) { unimplemented!() }
  #[verifier::external_body] pub fn read_dir<P: VToString>(p: P, io: &mut VIo) -> (r: Result<ReadDir>) ensures same_files(*old(io), *final(io)), r is Err ==> failed(*final(io)), r matches Ok(d) ==> in_dir(d) == listing(p.vx_text(), writes(*old(io))) && all_text(in_dir(d)) { unimplemented!() }
}
// in a folder of a valid name, an entry with a valid stem and extension has a valid path
pub open spec fn all_text(l: Seq<Option<PathBuf>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] matches Some(p) ==> (stem(p) is Some && (pext(p) matches Some(e) ==> otext(e) is Some) ==> ptext(p) is Some)) }
pub broadcast axiom fn axiom_named(p: PathBuf) ensures #![trigger ptext(p)] ptext(p) matches Some(t) ==> named_by(t) == p;
broadcast use {axiom_pathname_str, axiom_pathname_string, axiom_pathname, axiom_named, axiom_named_text, axiom_joined, axiom_stem};
