@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/lsfns.vx
@prelude
use crate::brack_parser::cst::CST;
use crate::brack_transformer::ast::AST;
use crate::brack_transformer::error::TransformError;
#[verifier::external_body] pub struct Project { x: u8 }
impl Project {
  #[verifier::external_body] pub fn new(p: &PathBuf) -> (r: Project) { unimplemented!() }
  #[verifier::external_body] pub fn load_brack_toml(&mut self) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] pub fn download_plugins_using_config(&mut self, io: &mut VIo) -> (r: Result<()>) ensures *final(io) == *old(io) { unimplemented!() }
}
// the compiler's stages: the saved content of a file as tokens, their tree, what transformation reports about it
pub uninterp spec fn tokenized(path: Seq<char>) -> Option<Seq<Token>>;
pub uninterp spec fn parsed(ts: Seq<Token>) -> Option<CST>;
pub uninterp spec fn reported(c: CST) -> Seq<TransformError>;
#[verifier::external_body] pub fn tokenize(p: &str) -> (r: Result<Vec<Token>>) ensures match r { Ok(v) => tokenized(p@) == Some(v@), Err(_) => tokenized(p@) is None } { unimplemented!() }
pub open spec fn errloc(e: TransformError) -> Location {
  match e {
    TransformError::AngleNotOpened(l) => l, TransformError::AngleNotClosed(l) => l, TransformError::CurlyNotOpened(l) => l, TransformError::CurlyNotClosed(l) => l,
    TransformError::SquareNotOpened(l) => l, TransformError::SquareNotClosed(l) => l, TransformError::MismatchedBracket(l) => l, TransformError::ModuleNotFound(l) => l,
    TransformError::IdentifierNotFound(l) => l, TransformError::DotNotFound(l) => l, TransformError::CommaNotFound(l) => l, TransformError::UnexpectedDot(l) => l,
    TransformError::UnexpectedComma(l) => l, TransformError::InvalidBackslash(l) => l,
  }
}
pub open spec fn errtext(e: TransformError) -> Seq<char> {
  match e {
    TransformError::AngleNotOpened(_) => "Angle bracket not opened"@, TransformError::AngleNotClosed(_) => "Angle bracket not closed"@,
    TransformError::CurlyNotOpened(_) => "Curly bracket not opened"@, TransformError::CurlyNotClosed(_) => "Curly bracket not closed"@,
    TransformError::SquareNotOpened(_) => "Square bracket not opened"@, TransformError::SquareNotClosed(_) => "Square bracket not closed"@,
    TransformError::MismatchedBracket(_) => "Mismatched bracket"@, TransformError::ModuleNotFound(_) => "Need module"@,
    TransformError::IdentifierNotFound(_) => "Need identifier after module"@, TransformError::DotNotFound(_) => "Need dot after module"@,
    TransformError::CommaNotFound(_) => "Need comma after module"@, TransformError::UnexpectedDot(_) => "Unexpected dot"@,
    TransformError::UnexpectedComma(_) => "Unexpected comma"@, TransformError::InvalidBackslash(_) => "Backslash must be followed by dot, comma, backslash, or bracket"@,
  }
}
// a diagnostic tells an error: its span (in the protocol's 32-bit positions) and its message, and nothing else
pub open spec fn tells(d: Diagnostic, e: TransformError) -> bool {
  d.range.start.line == errloc(e).start.line as u32 && d.range.start.character == errloc(e).start.character as u32 && d.range.end.line == errloc(e).end.line as u32 && d.range.end.character == errloc(e).end.character as u32
  && d.message@ == errtext(e) && d.more == plain()
}
#[verifier::opaque] pub open spec fn tell(d: Seq<Diagnostic>, e: Seq<TransformError>, n: int) -> bool { d.len() == n && forall|i: int| 0 <= i < n ==> tells(#[trigger] d[i], e[i]) }
pub proof fn lemma_tell(d: Seq<Diagnostic>, e: Seq<TransformError>, x: Diagnostic) requires tell(d, e, d.len() as int), tells(x, e[d.len() as int]) ensures tell(d.push(x), e, d.len() as int + 1)
{ reveal(tell); assert forall|i: int| 0 <= i < d.len() + 1 implies tells(#[trigger] d.push(x)[i], e[i]) by { if i < d.len() { assert(d.push(x)[i] == d[i]); } } }
pub open spec fn diagnostics_of(t: Seq<char>, uri: Seq<char>, d: Seq<Diagnostic>) -> bool {
  let j = untext(t);
  member(j, "method"@) == Some(J::Str("textDocument/publishDiagnostics"@)) && member(j, "id"@) is None
  && (member(j, "params"@) matches Some(p) && member(p, "uri"@) == Some(J::Str(uri)) && member(p, "diagnostics"@) == Some(J::Arr(jss(d))))
}
pub open spec fn publishes(t: Seq<char>, uri: Seq<char>, e: Seq<TransformError>) -> bool { exists|d: Seq<Diagnostic>| #[trigger] diagnostics_of(t, uri, d) && tell(d, e, e.len() as int) }
pub open spec fn capable(s: Server) -> bool { s.client_capabilities.text_document matches Some(t) && t.publish_diagnostics is Some }
// exactly one message was sent, and it publishes these diagnostics
pub open spec fn published(s: Server, a: VIo, b: VIo, uri: Seq<char>, e: Seq<TransformError>) -> bool {
  !broken(b) ==> if capable(s) { sent(b).len() == sent(a).len() + 1 && sent(b).drop_last() =~= sent(a) && publishes(sent(b).last(), uri, e) } else { sent(b) == sent(a) }
}
pub open spec fn errors_of(u: Url) -> Option<Seq<TransformError>> { match urlpath(u) { Some(p) => match tokenized(p) { Some(ts) => match parsed(ts) { Some(c) => Some(reported(c)), None => None }, None => None }, None => None } }
@fn brack_parser::parse::parse external
  ensures match r { Ok(c) => parsed($0@) == Some(c), Err(_) => parsed($0@) is None }
@fn brack_transformer::transform::transform external
  ensures r.1@ == reported(*$0)
@fn brack_transformer::error::TransformError::get_location
  ensures r == errloc(*$0)
@fn brack_transformer::error::TransformError::get_message
  ensures r@ == errtext(*$0)
@fn brack_language_server::server::Server::send_publish_diagnostics io
  ensures kept(*old(vx_io), *final(vx_io)), r is Err ==> broken(*final(vx_io)), r is Ok && !capable(*$0) ==> sent(*final(vx_io)) == sent(*old(vx_io)),
    r is Ok && capable(*$0) && !broken(*final(vx_io)) ==> sent(*final(vx_io)).len() == sent(*old(vx_io)).len() + 1 && sent(*final(vx_io)).drop_last() =~= sent(*old(vx_io)) && diagnostics_of(sent(*final(vx_io)).last(), $1@, $2@),
@fn brack_language_server::notification::did_save::Server::handle_text_document_did_save io
  ensures kept(*old(vx_io), *final(vx_io)), errors_of($1.text_document.uri) matches Some(e) ==> published(*$0, *old(vx_io), *final(vx_io), urltext($1.text_document.uri), e)
@hook entry
  proof { reveal(tell); }
@loop 0 acc=diagnostics
  invariant vx_i0 <= vx_s0@.len(), *vx_io == *old(vx_io), tell(diagnostics@, vx_s0@, vx_i0 as int)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  let ghost vx_o = diagnostics@;
@hook loop 0 end
  proof { reveal(tell); let n = vx_o.len() as int; let x = diagnostics@[n]; assert(diagnostics@ =~= vx_o.push(x)); lemma_tell(vx_o, vx_s0@, x); }
@prelude
pub open spec fn asked<T>(m: J) -> Option<T> { params_of::<T>(match member(m, "params"@) { Some(j) => j, None => J::Null }) }
@fn brack_language_server::notification::did_open::Server::handle_text_document_did_open io external
@fn brack_language_server::notification::did_change::Server::handle_text_document_did_change io external
@fn brack_language_server::notification::Server::handle_notification io
  ensures $2@ == "textDocument/didSave"@ ==> (asked::<DidSaveTextDocumentParams>(jv(*$1)) matches Some(p) ==> (errors_of(p.text_document.uri) matches Some(e) ==> published(*old($0), *old(vx_io), *final(vx_io), urltext(p.text_document.uri), e)))
