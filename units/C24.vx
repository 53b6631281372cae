@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/diskfiles.rs
@include ../lib/web.rs
@include ../lib/parts.rs
@thread .exists fs::write fs::read_to_string fs::create_dir_all File::create io::copy check_existence_brack_toml
@drop-type brack_plugin::plugin::Plugin
@drop-type brack_plugin::plugins::Plugins
@drop-type brack_project_manager::project::Project
@no-print
@rename get vget
@rename split vsplit
@rename trim_end_matches vtrim_end
@rename get_or_insert_with vx_or_put
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
use crate::brack_project_manager::plugin::PluginSchema;
use crate::brack_project_manager::config::Config;
use crate::brack_project_manager::document::Document;
pub trait VOrPut<T> { fn vx_or_put<F: FnOnce() -> T>(&mut self, f: F) -> (r: &mut T); }
impl<T> VOrPut<T> for Option<T> { #[verifier::external_body] fn vx_or_put<F: FnOnce() -> T>(&mut self, f: F) -> (r: &mut T)
  ensures *final(self) == Some(*final(r)), match *old(self) { Some(x) => *r == x, None => f.ensures((), *r) } { unimplemented!() } }
// a configuration, and the one a text describes (unit C20: writing and reading are each other's inverse)
pub struct Conf { pub document: Document, pub plugins: Map<Seq<char>, PluginSchema> }
pub open spec fn conf(c: Config) -> Conf { Conf { document: c.document, plugins: match c.plugins { Some(t) => t.m(), None => Map::empty() } } }
pub uninterp spec fn described(b: Seq<u8>) -> Option<Conf>;
pub mod toml { use super::*;
  #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<Config>) ensures match r { Ok(c) => described(utf8(s@)) == Some(conf(c)), Err(_) => described(utf8(s@)) is None } { unimplemented!() }
  #[verifier::external_body] pub fn to_string(c: &Config) -> (r: Result<String>) ensures r matches Ok(s) ==> described(utf8(s@)) == Some(conf(*c)) { unimplemented!() }
}
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && !s.contains(':') && !s.contains('/') && !s.contains('@') }
// github:OWNER/REPO@VERSION
pub open spec fn schema_of(s: Seq<char>, o: Seq<char>, r: Seq<char>, v: Seq<char>) -> bool { plain(o) && plain(r) && plain(v) && s == "github:"@ + o + "/"@ + r + "@"@ + v }
pub open spec fn entry(p: PluginSchema, o: Seq<char>, r: Seq<char>, v: Seq<char>) -> bool { match p { PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook } => owner@ == o && repo@ == r && version@ == v && expr_hook is None && stmt_hook is None && document_hook is None && text_hook is None } }
// REPO is NAME or NAME.BACKEND
pub open spec fn name_of(r: Seq<char>) -> Seq<char> { pieces(r, '.')[0] }
pub open spec fn home() -> Seq<char> { "Brack.toml"@ }
pub open spec fn file_of(r: Seq<char>) -> Seq<char> { "plugins/"@ + r + ".wasm"@ }
pub open spec fn address(o: Seq<char>, r: Seq<char>, v: Seq<char>) -> Seq<char> { "https://github.com/"@ + o + "/"@ + r + "/releases/download/"@ + v + "/"@ + r + ".wasm"@ }
// the plugin is added
pub open spec fn added(d: Map<Seq<char>, Seq<u8>>, e: Map<Seq<char>, Seq<u8>>, o: Seq<char>, r: Seq<char>, v: Seq<char>) -> bool {
  d.contains_key(home()) && e.contains_key(home()) && (described(d[home()]) matches Some(c) && described(e[home()]) matches Some(k) && !c.plugins.contains_key(name_of(r)) && k.document == c.document && (k.plugins.contains_key(name_of(r)) && entry(k.plugins[name_of(r)], o, r, v) && k.plugins == c.plugins.insert(name_of(r), k.plugins[name_of(r)])))
  && e.contains_key(file_of(r)) && release(address(o, r, v)) == Some(e[file_of(r)])
}
pub open spec fn same_home(d: Map<Seq<char>, Seq<u8>>, e: Map<Seq<char>, Seq<u8>>) -> bool { d.contains_key(home()) == e.contains_key(home()) && (d.contains_key(home()) ==> d[home()] == e[home()]) }
pub open spec fn cut(s: Seq<char>, o: Seq<char>, r: Seq<char>, v: Seq<char>) -> bool {
  pieces(s, ':')[0] == "github"@ && pieces(s, '/').len() == 2 && pieces(pieces(s, '/')[0], ':') == seq!["github"@, o] && pieces(pieces(s, '/')[1], '@') == seq![r, v] && pieces(s, '@').len() == 2 && pieces(s, '@')[1] == v
  && pieces(r, '.').len() > 0 && ({ let u = "https://github.com/"@ + o + "/"@ + r; trimmed_end(u, '/') == u && pieces(u, '/').len() > 0 && pieces(u, '/').last() == r })
}
pub proof fn lemma_plain(a: Seq<char>, b: Seq<char>, c: char) requires !a.contains(c), !b.contains(c) ensures !(a + b).contains(c)
{ let s = a + b; if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } } }
pub proof fn lemma_cut(s: Seq<char>, o: Seq<char>, r: Seq<char>, v: Seq<char>) requires schema_of(s, o, r, v) ensures cut(s, o, r, v)
{
  reveal_strlit("github:"); reveal_strlit("github"); reveal_strlit("/"); reveal_strlit("@"); reveal_strlit("https://github.com/");
  let g = "github"@; assert("github:"@ =~= g + seq![':']); assert("/"@ =~= seq!['/']); assert("@"@ =~= seq!['@']);
  assert(!g.contains(':') && !g.contains('/') && !g.contains('@'));
  lemma_plain("/"@, r, ':'); lemma_plain("@"@, v, ':'); lemma_plain(o, "/"@ + r, ':'); lemma_plain(o + ("/"@ + r), "@"@ + v, ':');
  let b = o + ("/"@ + r) + ("@"@ + v); assert(s =~= g + (seq![':'] + b)); lemma_pieces_two(g, ':', b);
  let go = "github:"@ + o; lemma_plain("github:"@, o, '/'); lemma_plain("@"@, v, '/'); lemma_plain(r, "@"@ + v, '/'); let rv = r + ("@"@ + v);
  assert(s =~= go + (seq!['/'] + rv)); lemma_pieces_two(go, '/', rv); assert(go =~= g + (seq![':'] + o)); lemma_pieces_two(g, ':', o);
  assert(rv =~= r + (seq!['@'] + v)); lemma_pieces_two(r, '@', v);
  let a = go + ("/"@ + r); lemma_plain("github:"@, o, '@'); lemma_plain("/"@, r, '@'); lemma_plain(go, "/"@ + r, '@'); assert(s =~= a + (seq!['@'] + v)); lemma_pieces_two(a, '@', v);
  lemma_pieces_some(r, '.');
  let u = "https://github.com/"@ + o + "/"@ + r; assert(u.last() == r.last()); assert(r.contains(r.last())); let h = "https://github.com/"@ + o; assert(u =~= h + (seq!['/'] + r)); lemma_pieces_last(h, '/', r); lemma_pieces_some(h, '/');
}
@fn brack_project_manager::plugin::check_existence_brack_toml io
  ensures *final(vx_io) == *old(vx_io), r ==> disk(*old(vx_io)).contains_key("Brack.toml"@)
@fn brack_project_manager::plugin::add_plugin io
  ensures forall|o: Seq<char>, r_: Seq<char>, v: Seq<char>| #[trigger] schema_of($0@, o, r_, v) ==> (r is Ok ==> added(disk(*old(vx_io)), disk(*final(vx_io)), o, r_, v)),
    r is Err ==> same_home(disk(*old(vx_io)), disk(*final(vx_io))) || torn(*final(vx_io)).contains(home()),
    r is Ok ==> pieces($0@, ':')[0] == "github"@
@hook entry
  proof { assert forall|o: Seq<char>, r: Seq<char>, v: Seq<char>| #[trigger] schema_of($0@, o, r, v) implies cut($0@, o, r, v) by { lemma_cut($0@, o, r, v); } reveal_strlit("plugins/"); reveal_strlit("Brack.toml"); }
