// The server's standard input and output.  TRUSTED (tokio): what was written so far, and whether a write has failed.
#[verifier::external_body] pub struct VOs { x: u8 }
pub uninterp spec fn osout(o: VOs) -> Seq<u8>;
pub uninterp spec fn osbroken(o: VOs) -> bool;
#[verifier::external_body] pub struct VIs { x: u8 }
pub enum Step { Msg(J), Junk, Stop }
pub struct VIo { pub os: VOs, pub is: VIs, pub sent: Ghost<Seq<Seq<char>>>, pub done: Ghost<Seq<Step>> }
// what standard input has yet to give, whether reading it has failed, and what was made of it so far
pub uninterp spec fn isrest(i: VIs) -> Seq<u8>;
pub uninterp spec fn islost(i: VIs) -> bool;
pub open spec fn unread(io: VIo) -> Seq<u8> { isrest(io.is) }
pub open spec fn lost(io: VIo) -> bool { islost(io.is) }
pub open spec fn done(io: VIo) -> Seq<Step> { io.done@ }
pub open spec fn written(io: VIo) -> Seq<u8> { osout(io.os) }
pub open spec fn broken(io: VIo) -> bool { osbroken(io.os) }
pub open spec fn sent(io: VIo) -> Seq<Seq<char>> { io.sent@ }
pub uninterp spec fn bytes(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn axiom_bytes_cat(a: Seq<char>, b: Seq<char>) ensures #![trigger bytes(a + b)] bytes(a + b) == bytes(a) + bytes(b);
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VToString for usize { open spec fn vx_text(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub trait VBytes { spec fn vx_bytes(&self) -> Seq<u8>; fn vas_bytes(&self) -> (r: &[u8]) ensures r@ == self.vx_bytes(); }
pub trait VLen { spec fn vx_lenp(&self) -> nat; fn vlen(&self) -> (r: usize) ensures r == self.vx_lenp(); }
impl VLen for str { open spec fn vx_lenp(&self) -> nat { bytes(self@).len() } #[verifier::external_body] fn vlen(&self) -> (r: usize) { unimplemented!() } }
impl VLen for String { open spec fn vx_lenp(&self) -> nat { bytes(self@).len() } #[verifier::external_body] fn vlen(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for Vec<T> { open spec fn vx_lenp(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }
impl<T> VLen for [T] { open spec fn vx_lenp(&self) -> nat { self@.len() } fn vlen(&self) -> (r: usize) { self.len() } }
impl VBytes for str { open spec fn vx_bytes(&self) -> Seq<u8> { bytes(self@) } #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VBytes for String { open spec fn vx_bytes(&self) -> Seq<u8> { bytes(self@) } #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body] pub struct Stdout { x: u8 }
#[verifier::external_body] pub fn stdout() -> (r: Stdout) { unimplemented!() }
impl Stdout {
  #[verifier::external_body] pub fn write_all(&mut self, b: &[u8], io: &mut VIo) -> (r: Result<()>)
    ensures final(io).sent == old(io).sent, broken(*old(io)) ==> broken(*final(io)), r is Err ==> broken(*final(io)), r is Ok ==> broken(*final(io)) == broken(*old(io)) && written(*final(io)) == written(*old(io)) + b@ { unimplemented!() }
  #[verifier::external_body] pub fn flush(&mut self, io: &mut VIo) -> (r: Result<()>)
    ensures final(io).sent == old(io).sent, broken(*old(io)) ==> broken(*final(io)), r is Err ==> broken(*final(io)), r is Ok ==> broken(*final(io)) == broken(*old(io)) && written(*final(io)) == written(*old(io)) { unimplemented!() }
}
// a message on the wire: its exact length in bytes, then the message
pub open spec fn frame(t: Seq<char>) -> Seq<u8> { bytes("Content-Length: "@) + bytes(dec(bytes(t).len() as int)) + bytes("\r\n\r\n"@) + bytes(t) }
pub open spec fn wire(s: Seq<Seq<char>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { wire(s.drop_last()) + frame(s.last()) } }
pub broadcast proof fn lemma_wire(s: Seq<Seq<char>>, t: Seq<char>) ensures #![trigger wire(s.push(t))] wire(s.push(t)) == wire(s) + frame(t) { assert(s.push(t).drop_last() =~= s); }
// what was written is exactly the messages sent, framed
pub open spec fn framed(io: VIo) -> bool { !broken(io) ==> written(io) == wire(sent(io)) }
// the id a message answers, if it is an answer: it has an id, a result or an error but not both, and no method
pub open spec fn answers_to(t: Seq<char>) -> Option<J> { let j = untext(t); match member(j, "id"@) { Some(id) => if (member(j, "result"@) is Some) != (member(j, "error"@) is Some) && member(j, "method"@) is None { Some(id) } else { None }, None => None } }
pub open spec fn failure(t: Seq<char>) -> bool { member(untext(t), "error"@) is Some }
// a message that answers nothing: no id
pub open spec fn note(t: Seq<char>) -> bool { member(untext(t), "id"@) is None && member(untext(t), "method"@) is Some }
pub open spec fn answers(s: Seq<Seq<char>>) -> Seq<(J, bool)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let a = answers(s.drop_last()); match answers_to(s.last()) { Some(id) => a.push((id, failure(s.last()))), None => a } } }
pub broadcast proof fn lemma_answers(s: Seq<Seq<char>>, t: Seq<char>) ensures #![trigger answers(s.push(t))] answers(s.push(t)) == (match answers_to(t) { Some(id) => answers(s).push((id, failure(t))), None => answers(s) }) { assert(s.push(t).drop_last() =~= s); }
// every message sent is an answer or a note
#[verifier::opaque] pub open spec fn sane(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (answers_to(#[trigger] s[i]) is Some || note(s[i])) }
pub broadcast proof fn lemma_sane(s: Seq<Seq<char>>, t: Seq<char>) ensures #![trigger sane(s.push(t))] sane(s) && (answers_to(t) is Some || note(t)) ==> sane(s.push(t)) { reveal(sane); assert forall|i: int| sane(s) && (answers_to(t) is Some || note(t)) && 0 <= i < s.push(t).len() implies (answers_to(#[trigger] s.push(t)[i]) is Some || note(s.push(t)[i])) by { if i < s.len() { assert(s.push(t)[i] == s[i]); } } }
broadcast use {axiom_bytes_cat, lemma_wire, lemma_answers, lemma_sane};
pub broadcast proof fn lemma_keys(t: Seq<char>)
  ensures #![trigger answers_to(t)] #![trigger note(t)] "id"@ != "result"@, "id"@ != "error"@, "id"@ != "method"@, "id"@ != "jsonrpc"@, "id"@ != "params"@, "result"@ != "error"@, "result"@ != "method"@, "result"@ != "jsonrpc"@, "result"@ != "params"@, "error"@ != "method"@, "error"@ != "jsonrpc"@, "error"@ != "params"@, "method"@ != "jsonrpc"@, "method"@ != "params"@
{ reveal_strlit("id"); reveal_strlit("result"); reveal_strlit("error"); reveal_strlit("method"); reveal_strlit("jsonrpc"); reveal_strlit("params");
  assert("id"@[0] == 'i' && "result"@[0] == 'r' && "error"@[0] == 'e' && "method"@[0] == 'm' && "jsonrpc"@[0] == 'j' && "params"@[0] == 'p'); }
broadcast use {lemma_keys};
