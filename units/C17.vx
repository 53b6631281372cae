@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/lsfns.vx
@prelude
#[verifier::external_body] pub struct Project { x: u8 }
impl Project {
  #[verifier::external_body] pub fn new(p: &PathBuf) -> (r: Project) { unimplemented!() }
  #[verifier::external_body] pub fn load_brack_toml(&mut self) -> (r: Result<()>) { unimplemented!() }
  #[verifier::external_body] pub fn download_plugins_using_config(&mut self, io: &mut VIo) -> (r: Result<()>) ensures *final(io) == *old(io) { unimplemented!() }
}
#[verifier::external_body] pub struct Token { x: u8 }
#[verifier::external_body] pub struct CST { x: u8 }
#[verifier::external_body] pub struct AST { x: u8 }
#[verifier::external_body] pub struct TransformError { x: u8 }
pub struct LocationData { pub line: usize, pub character: usize }
pub struct Location { pub start: LocationData, pub end: LocationData }
impl TransformError { #[verifier::external_body] pub fn get_location(&self) -> (r: Location) { unimplemented!() } #[verifier::external_body] pub fn get_message(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn tokenize(p: &str) -> (r: Result<Vec<Token>>) { unimplemented!() }
#[verifier::external_body] pub fn parse(t: &Vec<Token>) -> (r: Result<CST>) { unimplemented!() }
#[verifier::external_body] pub fn transform(c: &CST) -> (r: (AST, Vec<TransformError>)) { unimplemented!() }
// what a message asks for
pub enum Ask { Request(J), Nothing, Wrong }
pub open spec fn is_id(j: J) -> bool { j is Num || j is Str }
pub open spec fn ask(m: J) -> Ask {
  let id = match member(m, "id"@) { Some(i) => if is_id(i) { Some(i) } else { None }, None => None };
  let method = match member(m, "method"@) { Some(J::Str(s)) => Some(s), _ => None };
  match (id, method) { (Some(i), Some(_)) => Ask::Request(i), (None, None) => Ask::Wrong, _ => Ask::Nothing }
}
pub open spec fn replied(a: VIo, b: VIo, q: Ask) -> bool { match q { Ask::Request(i) => answered(a, b, i), Ask::Nothing => noted(a, b), Ask::Wrong => failed(a, b, J::Null) } }
@fn brack_language_server::server::Server::dispatch io
  ensures replied(*old(vx_io), *final(vx_io), ask(jv($1))), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::response::Server::handle_response io
  ensures *final(vx_io) == *old(vx_io), r is Ok
@fn brack_language_server::request::Server::handle_request io
  ensures r is Ok ==> answered(*old(vx_io), *final(vx_io), jv(*$2)), r is Err ==> noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::notification::Server::handle_notification io
  ensures noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::request::completion::Server::handle_completion external
@fn brack_language_server::request::semantic_tokens::Server::handle_semantic_tokens_full io
  ensures noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::request::semantic_tokens::separate external
@fn brack_language_server::notification::did_open::Server::handle_text_document_did_open io
  ensures noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::notification::did_change::Server::handle_text_document_did_change io
  ensures noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::notification::did_save::Server::handle_text_document_did_save io
  ensures noted(*old(vx_io), *final(vx_io))
@loop 0
  invariant vx_i0 <= vx_s0@.len(), *vx_io == *old(vx_io)
  decreases vx_s0@.len() - vx_i0
