// The disk and the web, as far as the download of plugins sees them.  TRUSTED (std, reqwest, tokio).
pub struct VIo { pub files: Ghost<Map<Seq<char>, Seq<u8>>> }
pub open spec fn disk(io: VIo) -> Map<Seq<char>, Seq<u8>> { io.files@ }
pub uninterp spec fn ptext(p: PathBuf) -> Seq<char>;
pub open spec fn dotless(e: Seq<char>) -> bool { e.len() > 0 && !e.contains('.') && !e.contains('/') }
impl PathBuf {
  #[verifier::external_body] pub fn from(s: &String) -> (r: PathBuf) ensures ptext(r) == s@ { unimplemented!() }
  #[verifier::external_body] pub fn exists(&self, io: &mut VIo) -> (b: bool) ensures *final(io) == *old(io), b == disk(*old(io)).contains_key(ptext(*self)) { unimplemented!() }
  // the extension is what follows the last dot of a file name that does not begin with it
  #[verifier::external_body] pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures forall|s: Seq<char>, o: Seq<char>| ptext(*self) == #[trigger] (s + ("."@ + o)) && dotless(o) && s.len() > 0 && s.last() != '/' ==> ptext(r) == s + ("."@ + e@) { unimplemented!() }
}
pub trait VAt { spec fn at(&self) -> Seq<char>; }
impl VAt for PathBuf { open spec fn at(&self) -> Seq<char> { ptext(*self) } }
impl VAt for &PathBuf { open spec fn at(&self) -> Seq<char> { ptext(**self) } }
impl VAt for &str { open spec fn at(&self) -> Seq<char> { (**self)@ } }
impl VAt for String { open spec fn at(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub struct Bytes { x: u8 }
pub uninterp spec fn bytes(b: Bytes) -> Seq<u8>;
// later runs trust these files
pub open spec fn ends(t: Seq<char>, e: Seq<char>) -> bool { t.len() >= e.len() && t.skip(t.len() - e.len()) == e }
pub open spec fn trusted(t: Seq<char>) -> bool { ends(t, ".wasm"@) }
// all files but one are as they were
pub open spec fn beside(d: Map<Seq<char>, Seq<u8>>, g: Map<Seq<char>, Seq<u8>>, f: Seq<char>) -> bool { forall|q: Seq<char>| #![trigger d.contains_key(q)] #![trigger g.contains_key(q)] q != f ==> d.contains_key(q) == g.contains_key(q) && (d.contains_key(q) ==> d[q] == g[q]) }
pub mod fs {
  use super::*;
  // a write may be interrupted and leave anything there: not where files are trusted
  #[verifier::external_body] pub fn write<P: VAt>(p: P, b: &Bytes, io: &mut VIo) -> (r: Result<()>)
    requires !trusted(p.at())
    ensures beside(disk(*old(io)), disk(*final(io)), p.at()), r is Ok ==> disk(*final(io)) == disk(*old(io)).insert(p.at(), bytes(*b)) { unimplemented!() }
  // a file is moved at once or not at all
  #[verifier::external_body] pub fn rename<P: VAt, Q: VAt>(p: P, q: Q, io: &mut VIo) -> (r: Result<()>)
    ensures r is Err ==> disk(*final(io)) == disk(*old(io)), r is Ok ==> disk(*old(io)).contains_key(p.at()) && disk(*final(io)) == disk(*old(io)).insert(q.at(), disk(*old(io))[p.at()]).remove(p.at()) { unimplemented!() }
  #[verifier::external_body] pub fn create_dir_all<P: VAt>(p: P, io: &mut VIo) -> (r: Result<()>) ensures disk(*final(io)) == disk(*old(io)) { unimplemented!() }
}
// tasks yield their values, in the order they are joined; a task that panics yields none
pub struct JoinHandle<T> { pub v: T }
pub mod task { use super::*; pub fn spawn<T>(v: T) -> (r: JoinHandle<T>) ensures r.v == v { JoinHandle { v } } }
#[verifier::external_body] pub fn join_all<T>(v: Vec<JoinHandle<T>>) -> (r: Vec<Result<T>>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]) matches Ok(x) ==> x == v@[i].v) { unimplemented!() }
