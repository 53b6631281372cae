// Files written as a whole, and read.  TRUSTED (std).
pub struct VIo { pub files: Ghost<Map<Seq<char>, Seq<u8>>>, pub torn: Ghost<Set<Seq<char>>> }
pub open spec fn disk(io: VIo) -> Map<Seq<char>, Seq<u8>> { io.files@ }
// files whose writing was tried and failed: anything may be there
pub open spec fn torn(io: VIo) -> Set<Seq<char>> { io.torn@ }
// all files but one are as they were
pub open spec fn beside(d: Map<Seq<char>, Seq<u8>>, g: Map<Seq<char>, Seq<u8>>, f: Seq<char>) -> bool { forall|q: Seq<char>| #![trigger d.contains_key(q)] #![trigger g.contains_key(q)] q != f ==> d.contains_key(q) == g.contains_key(q) && (d.contains_key(q) ==> d[q] == g[q]) }
pub open spec fn wrote(a: VIo, b: VIo, f: Seq<char>, ok: bool, w: Seq<u8>) -> bool { if ok { torn(b) == torn(a) && disk(b) == disk(a).insert(f, w) } else { torn(b) == torn(a).insert(f) && beside(disk(a), disk(b), f) } }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body] pub struct Bytes { x: u8 }
pub uninterp spec fn bytes(b: Bytes) -> Seq<u8>;
pub trait VBytes { spec fn vx_bytes(&self) -> Seq<u8>; }
impl VBytes for Bytes { open spec fn vx_bytes(&self) -> Seq<u8> { bytes(*self) } }
impl VBytes for String { open spec fn vx_bytes(&self) -> Seq<u8> { utf8(self@) } }
impl VBytes for &String { open spec fn vx_bytes(&self) -> Seq<u8> { utf8((**self)@) } }
impl VBytes for &str { open spec fn vx_bytes(&self) -> Seq<u8> { utf8((**self)@) } }
impl VBytes for &Bytes { open spec fn vx_bytes(&self) -> Seq<u8> { bytes(**self) } }
pub struct Path { pub t: Ghost<Seq<char>> }
pub type PathBuf = Path;
impl Path {
  #[verifier::external_body] pub fn new<P: VToString>(p: P) -> (r: Path) ensures r.t@ == p.vx_text() { unimplemented!() }
  #[verifier::external_body] pub fn exists(&self, io: &mut VIo) -> (b: bool) ensures *final(io) == *old(io), b ==> disk(*old(io)).contains_key(self.t@) { unimplemented!() }
}
pub struct File { pub t: Ghost<Seq<char>> }
impl File { #[verifier::external_body] pub fn create<P: VToString>(p: P, io: &mut VIo) -> (r: Result<File>) ensures r matches Ok(f) ==> f.t@ == p.vx_text(), wrote(*old(io), *final(io), p.vx_text(), r is Ok, Seq::<u8>::empty()) { unimplemented!() } }
impl Bytes { pub fn as_ref(&self) -> (r: &Bytes) ensures *r == *self { self } }
// nothing is at this path or below
pub open spec fn below(f: Seq<char>, p: Seq<char>) -> bool { f == p || exists|x: Seq<char>| f == #[trigger] (p + ("/"@ + x)) }
pub open spec fn nothing_at(d: Map<Seq<char>, Seq<u8>>, p: Seq<char>) -> bool { forall|f: Seq<char>| #[trigger] d.contains_key(f) ==> !below(f, p) }
pub mod io { use super::*;
  // what was in the file is kept
  #[verifier::external_body] pub fn copy(b: &mut &Bytes, f: &mut File, io: &mut VIo) -> (r: Result<u64>) ensures final(f).t@ == old(f).t@, wrote(*old(io), *final(io), old(f).t@, r is Ok, disk(*old(io))[old(f).t@] + bytes(**old(b))) { unimplemented!() } }
pub mod fs { use super::*;
  #[verifier::external_body] pub fn read_to_string<P: VToString>(p: P, io: &mut VIo) -> (r: Result<String>) ensures *final(io) == *old(io), r matches Ok(s) ==> disk(*old(io)).contains_key(p.vx_text()) && disk(*old(io))[p.vx_text()] == utf8(s@) { unimplemented!() }
  #[verifier::external_body] pub fn write<P: VToString, C: VBytes>(p: P, c: C, io: &mut VIo) -> (r: Result<()>) ensures wrote(*old(io), *final(io), p.vx_text(), r is Ok, c.vx_bytes()) { unimplemented!() }
  #[verifier::external_body] pub fn create_dir_all<P: VToString>(p: P, io: &mut VIo) -> (r: Result<()>) ensures *final(io) == *old(io) { unimplemented!() }
  #[verifier::external_body] pub fn create_dir<P: VToString>(p: P, io: &mut VIo) -> (r: Result<()>) ensures *final(io) == *old(io), r is Ok ==> nothing_at(disk(*old(io)), p.vx_text()) { unimplemented!() }
}
