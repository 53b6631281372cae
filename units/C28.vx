@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/maps.rs
@include ../lib/lsfns.vx
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
use crate::brack_project_manager::config::Config;
use crate::brack_project_manager::project::Project;
// a name in a folder
pub uninterp spec fn below(p: PathBuf, s: Seq<char>) -> PathBuf;
impl AsRef<Path> for PathBuf { }
impl<'a> AsRef<Path> for &'a PathBuf { }
pub uninterp spec fn pathname<P>(p: P) -> PathBuf;
pub broadcast axiom fn axiom_pathname(p: PathBuf) ensures #![trigger pathname(p)] pathname(p) == p && pathname(&p) == p;
pub broadcast axiom fn axiom_pathname_ref(p: &PathBuf) ensures #![trigger pathname(p)] pathname(p) == *p;
pub trait VAsPath: AsRef<Path> + Sized { fn as_ref(&self) -> (r: &Path) ensures *r == pathname(*self); }
impl<P: AsRef<Path>> VAsPath for P { #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl PathBuf {
  #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) ensures r == below(*self, s@) { unimplemented!() }
}
// the text of a file while a message is handled, and the configuration a text describes (TRUSTED: std, toml)
pub uninterp spec fn filetext(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn described(t: Seq<char>) -> Option<Config>;
pub mod fs { use super::*; #[verifier::external_body] pub fn read_to_string<P: AsRef<Path>>(p: P) -> (r: Result<String>) ensures match r { Ok(s) => filetext(pathname(p)) == Some(s@), Err(_) => filetext(pathname(p)) is None } { unimplemented!() } }
pub mod toml { use super::*; #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Config>) ensures match r { Ok(c) => described(s@) == Some(c), Err(_) => described(s@) is None } { unimplemented!() } }
impl Default for Config { #[verifier::external_body] fn default() -> (r: Config) { unimplemented!() } }
broadcast use {axiom_pathname, axiom_pathname_ref};
// what a download makes of a project, and whether it fails (unit C23)
pub uninterp spec fn downloads(a: Project) -> Option<Project>;
// the folder of the project a document lies in, ROOT/docs/FILE
pub open spec fn home(u: Url) -> Option<PathBuf> { match urlfile(u) { Some(p) => match up(p) { Some(d) => up(d), None => None }, None => None } }
pub open spec fn conf(root: PathBuf) -> Option<Config> { match filetext(below(root, "Brack.toml"@)) { Some(t) => described(t), None => None } }
// the project in this folder, as its configuration describes it and with nothing downloaded yet
pub open spec fn fresh(p: Project, root: PathBuf) -> bool { p.root == root && conf(root) == Some(p.config) && p.plugins_metadata.m() == Map::<Seq<char>, (PathBuf, FeatureFlag)>::empty() }
// opening this document makes p the project
pub open spec fn selects(u: Url, p: Project) -> bool { home(u) matches Some(root) && exists|q: Project| fresh(q, root) && #[trigger] downloads(q) == Some(p) }
// it has a project, but not all of its plugins can be downloaded
pub open spec fn stuck(u: Url) -> bool { home(u) matches Some(root) && exists|q: Project| fresh(q, root) && #[trigger] downloads(q) is None }
pub open spec fn has_project(u: Url) -> bool { home(u) matches Some(root) && conf(root) is Some }
pub open spec fn opened(a: Server, b: Server, u: Url) -> bool {
  b.client_capabilities == a.client_capabilities && (if has_project(u) { (b.project matches Some(p) && selects(u, p)) || stuck(u) && b.project == a.project } else { b.project == a.project })
}
pub open spec fn asked<T>(m: J) -> Option<T> { params_of::<T>(match member(m, "params"@) { Some(j) => j, None => J::Null }) }
// what a notification and a request make of the server
pub open spec fn notified(a: Server, b: Server, m: J, method: Seq<char>) -> bool {
  if method == "textDocument/didOpen"@ { match asked::<DidOpenTextDocumentParams>(m) { Some(p) => opened(a, b, p.text_document.uri), None => b == a } } else { b == a }
}
pub open spec fn requested(a: Server, b: Server, m: J, method: Seq<char>, fails: bool) -> bool {
  b.project == a.project && (if method == "initialize"@ { match asked::<InitializeParams>(m) { Some(p) => b.client_capabilities == p.capabilities || fails && b == a, None => b == a } } else { b == a })
}
pub open spec fn is_id(j: J) -> bool { j is Num || j is Str }
pub open spec fn stepped(a: Server, b: Server, m: J, fails: bool) -> bool {
  match (member(m, "id"@), member(m, "method"@)) {
    (Some(i), Some(J::Str(s))) => if is_id(i) { requested(a, b, m, s, fails) } else { notified(a, b, m, s) },
    (None, Some(J::Str(s))) => notified(a, b, m, s),
    _ => b == a,
  }
}
@fn brack_project_manager::project::Project::new
  ensures r.root == pathname($0), r.plugins_metadata.m() == Map::<Seq<char>, (PathBuf, FeatureFlag)>::empty()
@fn brack_project_manager::project::Project::load_brack_toml
  ensures final($0).root == old($0).root, final($0).plugins_metadata == old($0).plugins_metadata,
    match r { Ok(_) => conf(old($0).root) == Some(final($0).config), Err(_) => conf(old($0).root) is None && final($0).config == old($0).config }
@fn brack_project_manager::project::Project::download_plugins_using_config external io
  ensures *final(vx_io) == *old(vx_io), match r { Ok(_) => downloads(*old($0)) == Some(*final($0)), Err(_) => downloads(*old($0)) is None }
@fn brack_language_server::notification::did_open::Server::handle_text_document_did_open io
  ensures opened(*old($0), *final($0), $1.text_document.uri)
@fn brack_language_server::notification::Server::handle_notification io
  ensures notified(*old($0), *final($0), jv(*$1), $2@)
@fn brack_language_server::request::Server::handle_request io
  ensures requested(*old($0), *final($0), jv(*$1), $3@, broken(*final(vx_io)))
@fn brack_language_server::server::Server::dispatch io
  ensures stepped(*old($0), *final($0), jv($1), broken(*final(vx_io)))
@fn brack_language_server::response::Server::handle_response io external
@fn brack_language_server::notification::did_save::Server::handle_text_document_did_save io external
@fn brack_language_server::notification::did_change::Server::handle_text_document_did_change io external
@fn brack_language_server::request::semantic_tokens::Server::handle_semantic_tokens_full io external
@fn brack_language_server::request::completion::Server::handle_completion external
