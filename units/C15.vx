@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/lsfns.vx
@prelude
#[verifier::external_body] pub struct Project { x: u8 }
// the document a path names, as tokens
pub uninterp spec fn tokenized(path: Seq<char>) -> Option<Seq<Token>>;
// C02: tokens start in order, and each one ends on its own line after its start
#[verifier::opaque] pub open spec fn placed(ts: Seq<Token>) -> bool {
  forall|i: int| 0 <= i < ts.len() ==> (#[trigger] tloc(ts[i])).start.line <= 0x1fff_ffff && tloc(ts[i]).start.character <= tloc(ts[i]).end.character <= 0x1fff_ffff && (i > 0 ==> le(tloc(ts[i - 1]).start, tloc(ts[i]).start))
}
pub proof fn lemma_placed(ts: Seq<Token>, i: int) requires placed(ts), 0 <= i < ts.len()
  ensures tloc(ts[i]).start.line <= 0x1fff_ffff && tloc(ts[i]).start.character <= tloc(ts[i]).end.character <= 0x1fff_ffff, i > 0 ==> le(tloc(ts[i - 1]).start, tloc(ts[i]).start)
{ reveal(placed); let l = tloc(ts[i]); }
// where the protocol says the i-th semantic token is
pub struct At { pub line: int, pub col: int }
pub open spec fn decoded(s: Seq<SemanticToken>, i: int) -> At decreases i {
  let p = if i <= 0 { At { line: 0, col: 0 } } else { decoded(s, i - 1) };
  if i < 0 || i >= s.len() { p } else if s[i].delta_line == 0 { At { line: p.line, col: p.col + s[i].delta_start } } else { At { line: p.line + s[i].delta_line, col: s[i].delta_start as int } }
}
pub proof fn lemma_decoded(s: Seq<SemanticToken>, x: SemanticToken, i: int) requires i < s.len() ensures decoded(s.push(x), i) == decoded(s, i) decreases i { if i > 0 { lemma_decoded(s, x, i - 1); } }
pub open spec fn legend() -> Seq<SemanticTokenType> {
  seq![SemanticTokenType::NAMESPACE, SemanticTokenType::TYPE, SemanticTokenType::CLASS, SemanticTokenType::ENUM, SemanticTokenType::INTERFACE, SemanticTokenType::STRUCT, SemanticTokenType::TYPE_PARAMETER, SemanticTokenType::PARAMETER, SemanticTokenType::VARIABLE, SemanticTokenType::PROPERTY, SemanticTokenType::ENUM_MEMBER, SemanticTokenType::EVENT, SemanticTokenType::FUNCTION, SemanticTokenType::METHOD, SemanticTokenType::MACRO, SemanticTokenType::KEYWORD, SemanticTokenType::MODIFIER, SemanticTokenType::COMMENT, SemanticTokenType::STRING, SemanticTokenType::NUMBER, SemanticTokenType::REGEXP, SemanticTokenType::OPERATOR, SemanticTokenType::DECORATOR]
}
pub open spec fn style(t: Token) -> Option<SemanticTokenType> {
  match t {
    Token::Module(_, _) => Some(SemanticTokenType::NAMESPACE), Token::Ident(_, _) => Some(SemanticTokenType::VARIABLE),
    Token::AngleBracketOpen(_) => Some(SemanticTokenType::MACRO), Token::AngleBracketClose(_) => Some(SemanticTokenType::MACRO),
    Token::CurlyBracketOpen(_) => Some(SemanticTokenType::METHOD), Token::CurlyBracketClose(_) => Some(SemanticTokenType::METHOD),
    Token::SquareBracketOpen(_) => Some(SemanticTokenType::FUNCTION), Token::SquareBracketClose(_) => Some(SemanticTokenType::FUNCTION),
    _ => None,
  }
}
pub open spec fn styled(t: Token, n: u32) -> bool { match style(t) { Some(x) => n < legend().len() && legend()[n as int] == x, None => n >= legend().len() } }
pub open spec fn same(s: Seq<SemanticToken>, ts: Seq<Token>, i: int) -> bool {
  decoded(s, i) == (At { line: tloc(ts[i]).start.line as int, col: tloc(ts[i]).start.character as int }) && s[i].length == tloc(ts[i]).end.character - tloc(ts[i]).start.character && styled(ts[i], s[i].token_type)
}
#[verifier::opaque] pub open spec fn shown(s: Seq<SemanticToken>, ts: Seq<Token>, n: int) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] same(s, ts, i) }
pub proof fn lemma_shown(s: Seq<SemanticToken>, ts: Seq<Token>, x: SemanticToken) requires shown(s, ts, s.len() as int), same(s.push(x), ts, s.len() as int) ensures shown(s.push(x), ts, s.len() as int + 1)
{ reveal(shown); assert forall|i: int| 0 <= i < s.len() + 1 implies #[trigger] same(s.push(x), ts, i) by { if i < s.len() { lemma_decoded(s, x, i); assert(same(s, ts, i)); } } }
#[verifier::external_body] pub fn tokenize(p: &str) -> (r: Result<Vec<Token>>) ensures match r { Ok(v) => tokenized(p@) == Some(v@) && placed(v@), Err(_) => tokenized(p@) is None } { unimplemented!() }
pub proof fn lemma_names()
{ }
@fn brack_tokenizer::tokens::Token::get_location
  ensures r == tloc(*$0)
@fn brack_language_server::request::semantic_tokens::token_type_as_u32
  ensures !($0 is DECORATOR) ==> r < legend().len() && legend()[r as int] == $0
@fn brack_language_server::request::semantic_tokens::token_kind_to_type
  ensures styled(*$0, r)
@fn brack_language_server::request::semantic_tokens::separate
  requires placed($0@)
  ensures shown(r@, $0@, $0@.len() as int)
@hook entry
  proof { reveal(shown); }
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == $0@, placed($0@), shown(semantic_tokens@, $0@, vx_i0 as int),
    prev_line == decoded(semantic_tokens@, vx_i0 - 1).line, prev_char == decoded(semantic_tokens@, vx_i0 - 1).col,
    vx_i0 > 0 ==> prev_line == tloc($0@[vx_i0 - 1]).start.line && prev_char == tloc($0@[vx_i0 - 1]).start.character,
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_placed($0@, vx_i0 - 1); reveal(shown); }
  let ghost vx_o = semantic_tokens@;
@hook loop 0 end
  proof { let n = vx_o.len() as int; let x = semantic_tokens@[n]; assert(semantic_tokens@ =~= vx_o.push(x)); lemma_decoded(vx_o, x, n - 1); assert(same(vx_o.push(x), $0@, n)); lemma_shown(vx_o, $0@, x); }
@fn brack_language_server::request::semantic_tokens::Server::handle_semantic_tokens_full io
  ensures noted(*old(vx_io), *final(vx_io)),
    match urlpath($1.text_document.uri) { Some(p) => match tokenized(p) { Some(ts) => r matches Ok(Some(t)) && shown(t.data@, ts, ts.len() as int), None => true }, None => true }
@prelude
pub open spec fn reply(t: Seq<char>, id: J) -> Option<J> { if member(untext(t), "id"@) == Some(id) { member(untext(t), "result"@) } else { None } }
pub open spec fn asked<T>(m: J) -> Option<T> { params_of::<T>(match member(m, "params"@) { Some(j) => j, None => J::Null }) }
// the answer shows the document the request names
pub open spec fn shows(j: J, ts: Seq<Token>) -> bool { exists|t: SemanticTokens| j == js_semantic(t) && #[trigger] shown(t.data@, ts, ts.len() as int) }
@fn brack_language_server::request::completion::Server::handle_completion external
@fn brack_language_server::request::Server::handle_request io
  ensures
    kept(*old(vx_io), *final(vx_io)),
    $3@ == "initialize"@ && r is Ok && !broken(*final(vx_io)) ==> sent(*final(vx_io)).len() > 0 && (reply(sent(*final(vx_io)).last(), jv(*$2)) matches Some(j) && announced(j) == legend()),
    $3@ == "textDocument/semanticTokens/full"@ && r is Ok && !broken(*final(vx_io)) ==>
      (asked::<SemanticTokensParams>(jv(*$1)) matches Some(p) ==> match urlpath(p.text_document.uri) { Some(u) => match tokenized(u) { Some(ts) => sent(*final(vx_io)).len() > 0 && (reply(sent(*final(vx_io)).last(), jv(*$2)) matches Some(j) && shows(j, ts)), None => true }, None => true }),
