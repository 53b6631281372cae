// The protocol's types (lsp-types), as far as the server uses them.  TRUSTED: how they are read from and written to JSON.
pub struct Unread { pub x: u8 }
pub struct PublishDiagnosticsCapability { pub x: Unread }
pub struct TextDocumentClientCapabilities { pub publish_diagnostics: Option<PublishDiagnosticsCapability> }
pub struct ClientCapabilities { pub text_document: Option<TextDocumentClientCapabilities> }
pub struct InitializeParams { pub capabilities: ClientCapabilities }
pub uninterp spec fn params_of<T>(j: J) -> Option<T>;
pub trait Deserialize: Sized { fn deserialize(v: Value) -> (r: Result<Self>) ensures match r { Ok(p) => params_of::<Self>(jv(v)) == Some(p), Err(_) => params_of::<Self>(jv(v)) is None }; }
impl Deserialize for InitializeParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
#[verifier::external_body] pub struct Url { x: u8 }
pub uninterp spec fn urltext(u: Url) -> Seq<char>;
// the file a URL names, if it names one, and its path as text
pub uninterp spec fn urlfile(u: Url) -> Option<PathBuf>;
pub open spec fn urlpath(u: Url) -> Option<Seq<char>> { match urlfile(u) { Some(p) => ptext(p), None => None } }
// a path's text; None where it is not valid text
pub uninterp spec fn ptext(p: PathBuf) -> Option<Seq<char>>;
impl Url {
  #[verifier::external_body] pub fn to_file_path(&self) -> (r: Result<PathBuf>) ensures r matches Ok(p) ==> urlfile(*self) == Some(p), r is Err ==> urlfile(*self) is None { unimplemented!() }
  #[verifier::external_body] pub fn vas_str(&self) -> (r: &str) ensures r@ == urltext(*self) { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match (r, ptext(*self)) { (Some(s), Some(t)) => s@ == t, (None, None) => true, _ => false } { unimplemented!() } #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>) ensures match r { Some(p) => up(*self) == Some(*p), None => up(*self) is None } { unimplemented!() } }
// the folder a path lies in
pub uninterp spec fn up(p: PathBuf) -> Option<PathBuf>;
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct TextDocumentItem { pub uri: Url }
pub struct SemanticTokensParams { pub text_document: TextDocumentIdentifier }
pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct DidChangeTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct CompletionContext { pub trigger_character: Option<String> }
pub struct CompletionParams { pub context: Option<CompletionContext> }
impl Deserialize for SemanticTokensParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
impl Deserialize for CompletionParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
impl Deserialize for DidOpenTextDocumentParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
impl Deserialize for DidChangeTextDocumentParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
impl Deserialize for DidSaveTextDocumentParams { #[verifier::external_body] fn deserialize(v: Value) -> (r: Result<Self>) { unimplemented!() } }
// what the server offers
pub enum SemanticTokenType { NAMESPACE, TYPE, CLASS, ENUM, INTERFACE, STRUCT, TYPE_PARAMETER, PARAMETER, VARIABLE, PROPERTY, ENUM_MEMBER, EVENT, FUNCTION, METHOD, MACRO, KEYWORD, MODIFIER, COMMENT, STRING, NUMBER, REGEXP, OPERATOR, DECORATOR }
pub enum SemanticTokenModifier { DECLARATION, DEFINITION, READONLY, STATIC, ABSTRACT, DEPRECATED, ASYNC, MODIFICATION, DOCUMENTATION, DEFAULT_LIBRARY }
pub open spec fn stname(t: SemanticTokenType) -> Seq<char> { match t { SemanticTokenType::NAMESPACE => "namespace"@, SemanticTokenType::TYPE => "type"@, SemanticTokenType::CLASS => "class"@, SemanticTokenType::ENUM => "enum"@, SemanticTokenType::INTERFACE => "interface"@, SemanticTokenType::STRUCT => "struct"@, SemanticTokenType::TYPE_PARAMETER => "typeParameter"@, SemanticTokenType::PARAMETER => "parameter"@, SemanticTokenType::VARIABLE => "variable"@, SemanticTokenType::PROPERTY => "property"@, SemanticTokenType::ENUM_MEMBER => "enumMember"@, SemanticTokenType::EVENT => "event"@, SemanticTokenType::FUNCTION => "function"@, SemanticTokenType::METHOD => "method"@, SemanticTokenType::MACRO => "macro"@, SemanticTokenType::KEYWORD => "keyword"@, SemanticTokenType::MODIFIER => "modifier"@, SemanticTokenType::COMMENT => "comment"@, SemanticTokenType::STRING => "string"@, SemanticTokenType::NUMBER => "number"@, SemanticTokenType::REGEXP => "regexp"@, SemanticTokenType::OPERATOR => "operator"@, SemanticTokenType::DECORATOR => "decorator"@ } }
impl SemanticTokenType { #[verifier::external_body] pub fn vas_str(&self) -> (r: &str) ensures r@ == stname(*self) { unimplemented!() } }
pub struct SemanticTokensLegend { pub token_types: Vec<SemanticTokenType>, pub token_modifiers: Vec<SemanticTokenModifier> }
pub enum SemanticTokensFullOptions { Bool(bool), Delta { delta: Option<bool> } }
pub struct SemanticTokensOptions { pub range: Option<bool>, pub full: Option<SemanticTokensFullOptions>, pub legend: SemanticTokensLegend, pub more: Unread }
pub enum SemanticTokensServerCapabilities { SemanticTokensOptions(SemanticTokensOptions), SemanticTokensRegistrationOptions(Unread) }
pub struct CompletionOptions { pub resolve_provider: Option<bool>, pub trigger_characters: Option<Vec<String>>, pub more: Unread }
#[allow(non_camel_case_types)] pub enum TextDocumentSyncKind { NONE, FULL, INCREMENTAL }
pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind), Options(Unread) }
pub struct ServerCapabilities { pub text_document_sync: Option<TextDocumentSyncCapability>, pub completion_provider: Option<CompletionOptions>, pub semantic_tokens_provider: Option<SemanticTokensServerCapabilities>, pub more: Unread }
pub struct ServerInfo { pub name: String, pub version: Option<String> }
pub struct InitializeResult { pub capabilities: ServerCapabilities, pub server_info: Option<ServerInfo> }
impl SemanticTokensOptions { #[verifier::external_body] pub fn vdefault() -> (r: Self) { unimplemented!() } }
impl CompletionOptions { #[verifier::external_body] pub fn vdefault() -> (r: Self) { unimplemented!() } }
impl ServerCapabilities { #[verifier::external_body] pub fn vdefault() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn js_init(r: InitializeResult) -> J;
impl Serialize for InitializeResult { open spec fn js(&self) -> J { js_init(*self) } }
// the token types a client reads from the answer to initialize
pub uninterp spec fn announced(j: J) -> Seq<SemanticTokenType>;
pub broadcast axiom fn axiom_announced(r: InitializeResult) ensures #![trigger js_init(r)] match r.capabilities.semantic_tokens_provider { Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => announced(js_init(r)) == o.legend.token_types@, _ => announced(js_init(r)) == Seq::<SemanticTokenType>::empty() };
#[derive(PartialEq, Eq)] pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
pub struct SemanticTokens { pub result_id: Option<String>, pub data: Vec<SemanticToken> }
pub uninterp spec fn js_semantic(r: SemanticTokens) -> J;
impl Serialize for SemanticTokens { open spec fn js(&self) -> J { js_semantic(*self) } }
#[allow(non_camel_case_types)] pub enum InsertTextFormat { PLAIN_TEXT, SNIPPET }
pub struct CompletionItem { pub label: String, pub detail: Option<String>, pub insert_text: Option<String>, pub insert_text_format: Option<InsertTextFormat>, pub more: Unread }
impl CompletionItem { #[verifier::external_body] pub fn vdefault() -> (r: Self) ensures r.more == plain() { unimplemented!() } }
pub enum CompletionResponse { Array(Vec<CompletionItem>), List(Unread) }
pub uninterp spec fn js_completion(r: CompletionResponse) -> J;
impl Serialize for CompletionResponse { open spec fn js(&self) -> J { js_completion(*self) } }
pub struct Position { pub line: u32, pub character: u32 }
pub struct Range { pub start: Position, pub end: Position }
pub struct Diagnostic { pub range: Range, pub message: String, pub more: Unread }
impl Diagnostic { #[verifier::external_body] pub fn vdefault() -> (r: Self) ensures r.more == plain() { unimplemented!() } }
pub uninterp spec fn plain() -> Unread;
pub uninterp spec fn js_diagnostic(r: Diagnostic) -> J;
impl Serialize for Diagnostic { open spec fn js(&self) -> J { js_diagnostic(*self) } }
pub mod lsp_types { pub use super::{Position, Range, Diagnostic}; }
broadcast use {axiom_announced};
