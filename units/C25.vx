@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@crate brack /repo/src/lib.rs
@crate brack_main /repo/src/main.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/diskfiles.rs
@thread fs::write fs::create_dir fs::create_dir_all fs::read_to_string .exists
@drop-type brack_plugin::plugin::Plugin
@drop-type brack_plugin::plugins::Plugins
@drop-type brack_project_manager::project::Project
@no-print
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
use crate::brack_project_manager::plugin::PluginSchema;
use crate::brack_project_manager::config::Config;
use crate::brack_project_manager::document::Document;
// a configuration, and the one a text describes (TRUSTED: toml)
pub struct Conf { pub document: Document, pub plugins: Map<Seq<char>, PluginSchema> }
pub uninterp spec fn described(b: Seq<u8>) -> Option<Conf>;
// a text in TOML
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
pub mod toml { use super::*;
  pub struct Value { pub t: Ghost<Seq<char>> }
  impl Value { #[verifier::external_body] pub fn from(s: &str) -> (r: Value) ensures r.t@ == quoted(s@) { unimplemented!() } }
}
impl VToString for toml::Value { open spec fn vx_text(&self) -> Seq<char> { self.t@ } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn is_new(n: Seq<char>, b: Seq<u8>) -> bool { described(b) matches Some(c) && c.document.name@ == n && c.document.version@ == "0.1.0"@ && c.document.backend@ == ""@ && c.document.authors@.len() == 1 && c.document.authors@[0]@ == "your name <your email>"@ && c.plugins == Map::<Seq<char>, PluginSchema>::empty() }
pub axiom fn axiom_described(n: Seq<char>)
  ensures is_new(n, utf8("[document]\nname = "@ + quoted(n) + "\nversion = \"0.1.0\"\nbackend = \"\"\nauthors = [\"your name <your email>\"]\n\n[plugins]\n"@));
pub open spec fn file(n: Seq<char>, f: Seq<char>) -> Seq<char> { n + ("/"@ + f) }
// a project and nothing else
pub open spec fn made(n: Seq<char>, d: Map<Seq<char>, Seq<u8>>, e: Map<Seq<char>, Seq<u8>>) -> bool {
  let (m, b, g) = (file(n, "docs/main.[]"@), file(n, "Brack.toml"@), file(n, ".gitignore"@));
  nothing_at(d, n) && has(e, m, ""@) && has(e, g, "plugins\nout\n"@) && e.contains_key(b) && is_new(n, e[b]) && e.dom() =~= d.dom().insert(m).insert(b).insert(g)
}
// what was there stays as it was
pub open spec fn kept(d: Map<Seq<char>, Seq<u8>>, e: Map<Seq<char>, Seq<u8>>) -> bool { forall|f: Seq<char>| d.contains_key(f) ==> e.contains_key(f) && #[trigger] e[f] == d[f] }
pub open spec fn has(d: Map<Seq<char>, Seq<u8>>, f: Seq<char>, w: Seq<char>) -> bool { d.contains_key(f) && d[f] == utf8(w) }
@fn brack_main::new_project io
  ensures r is Ok ==> made($0@, disk(*old(vx_io)), disk(*final(vx_io))), kept(disk(*old(vx_io)), disk(*final(vx_io)))
@literal "[document]\nname = "
@literal "\nversion = "0.1.0"\nbackend = ""\nauthors = ["your name <your email>"]\n\n[plugins]\n"
@hook entry
  proof { axiom_described($0@); reveal_strlit("/"); reveal_strlit("docs/main.[]"); reveal_strlit("Brack.toml"); reveal_strlit(".gitignore"); reveal_strlit("/docs/main.[]"); reveal_strlit("/docs"); reveal_strlit("docs"); reveal_strlit("/main.[]"); reveal_strlit("/Brack.toml"); reveal_strlit("/.gitignore");
    let (m, b, g) = (file($0@, "docs/main.[]"@), file($0@, "Brack.toml"@), file($0@, ".gitignore"@)); assert(m.last() == ']' && b.last() == 'l' && g.last() == 'e');
    let (i, j) = ($0@ + "/docs"@, $0@ + "/"@); assert(m =~= $0@ + "/docs/main.[]"@ && m =~= i + "/main.[]"@ && m =~= j + "docs/main.[]"@ && m =~= j + "docs"@ + "/main.[]"@); assert(b =~= $0@ + "/Brack.toml"@); assert(g =~= $0@ + "/.gitignore"@); assert(below(m, $0@) && below(b, $0@) && below(g, $0@)); }
