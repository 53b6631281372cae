@rename as_bytes vas_bytes
@rename len vlen
@rename get vget
@rename as_str vas_str
@thread .write_all .flush .send_stdout .send_message .log_message .send_error_response .send_invalid_request_response .send_method_not_found_response .send_parse_error_response .send_publish_diagnostics .dispatch .handle_request .handle_response .handle_notification .handle_semantic_tokens_full .handle_text_document_did_open .handle_text_document_did_change .handle_text_document_did_save .run .read .download_plugins_using_config
@no-print
@derive-json brack_language_server
@include ../lib/json.rs
@include ../lib/wire.rs
@include ../lib/path.rs
@include ../lib/lsp.rs
@prelude
use crate::brack_language_server::server::Server;
use crate::brack_language_server::result::BLSResult;
// nothing was written that was not sent whole; what was broken stays so
pub open spec fn kept(a: VIo, b: VIo) -> bool { (broken(a) ==> broken(b)) && (framed(a) ==> framed(b)) && (sane(sent(a)) ==> broken(b) || sane(sent(b))) }
// nothing but notes was sent, without fail
pub open spec fn noted(a: VIo, b: VIo) -> bool { kept(a, b) && (!broken(b) ==> answers(sent(b)) == answers(sent(a))) }
// one answer was sent: to this id, a failure or not
pub open spec fn answered(a: VIo, b: VIo, id: J) -> bool { kept(a, b) && (!broken(b) ==> answers(sent(b)) == answers(sent(a)).push((id, false)) || failed(a, b, id)) }
pub open spec fn failed(a: VIo, b: VIo, id: J) -> bool { kept(a, b) && (!broken(b) ==> answers(sent(b)) == answers(sent(a)).push((id, true))) }
pub open spec fn ojv(o: Option<&Value>) -> J { match o { Some(v) => jv(*v), None => J::Null } }
@fn brack_language_server::server::Server::send_stdout io
  requires answers_to(text($1.js())) is Some || note(text($1.js()))
  ensures
    kept(*old(vx_io), *final(vx_io)),
    r is Ok ==> broken(*final(vx_io)) || sent(*final(vx_io)) == sent(*old(vx_io)).push(text($1.js())), r is Err ==> broken(*final(vx_io)) || sent(*final(vx_io)) == sent(*old(vx_io)),
@hook after call flush 0
  proof { vx_io.sent@ = vx_io.sent@.push(text($1.js())); }
@fn brack_language_server::server::Server::send_message io
  requires answers_to($1@) is Some || note($1@)
  ensures
    kept(*old(vx_io), *final(vx_io)),
    r is Err ==> broken(*final(vx_io)), r is Ok ==> broken(*final(vx_io)) || sent(*final(vx_io)) == sent(*old(vx_io)).push($1@),
@hook after call flush 0
  proof { vx_io.sent@ = vx_io.sent@.push($1@); }
@fn brack_language_server::server::Server::log_message io
  ensures noted(*old(vx_io), *final(vx_io)), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_error_response io
  ensures failed(*old(vx_io), *final(vx_io), ojv($1)), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_invalid_request_response io
  ensures failed(*old(vx_io), *final(vx_io), J::Null), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_parse_error_response io
  ensures failed(*old(vx_io), *final(vx_io), J::Null), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_method_not_found_response io
  ensures failed(*old(vx_io), *final(vx_io), jv(*$1)), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::server::Server::send_publish_diagnostics io
  ensures noted(*old(vx_io), *final(vx_io)), r is Err ==> broken(*final(vx_io))
@fn brack_language_server::result::BLSResult::new
  ensures member(r.js(), "id"@) == Some(jv(*$0)), member(r.js(), "result"@) == Some($1.js()), member(r.js(), "error"@) is None, member(r.js(), "method"@) is None
