@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_expander /repo/crates/brack-expander/src/lib.rs
@crate brack_codegen /repo/crates/brack-codegen/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@crate brack /repo/src/lib.rs
@crate brack_main /repo/src/main.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/loadfns.vx
@include ../lib/maps.rs
@include ../lib/files.rs
@include ../lib/project.rs
@include ../lib/stages.vx
@include ../lib/startup.rs
@thread fs::create_dir_all fs::read_dir fs::write fs::create_dir env::var
@print
@rename ends_with vends_with
@rename unwrap_or_default vunwrap_or_default
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
use crate::brack::sub_commands::SubCommands;
pub trait VEndsWith { spec fn vx_ew(&self) -> Seq<char>; fn vends_with(&self, s: &str) -> (b: bool) ensures b == ends(self.vx_ew(), s@); }
impl VEndsWith for String { open spec fn vx_ew(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vends_with(&self, s: &str) -> (b: bool) { unimplemented!() } }
impl VEndsWith for str { open spec fn vx_ew(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vends_with(&self, s: &str) -> (b: bool) { unimplemented!() } }
pub open spec fn ends(t: Seq<char>, e: Seq<char>) -> bool { t.len() >= e.len() && t.skip(t.len() - e.len()) == e }
pub mod env { use super::*; #[verifier::external_body] pub fn var(n: &str, io: &mut VIo) -> (r: Result<String>) ensures *final(io) == *old(io), match r { Ok(s) => variable(n@) == Some(s@), Err(_) => variable(n@) is None } { unimplemented!() } }
pub uninterp spec fn variable(n: Seq<char>) -> Option<Seq<char>>;
pub trait VOrDefault<T> { fn vunwrap_or_default(self) -> (r: T); }
impl VOrDefault<String> for Result<String> { fn vunwrap_or_default(self) -> (r: String) ensures r@ == (match self { Ok(s) => s@, Err(_) => Seq::<char>::empty() }) { match self { Ok(s) => s, Err(_) => String::new() } } }
// the JSON text of a value (serde, TRUSTED to be a function of the value)
pub uninterp spec fn jsontext<V>(v: V) -> Option<Seq<char>>;
pub trait VJ { type V; spec fn jv(&self) -> Self::V; }
impl VJ for Vec<Token> { type V = Seq<Token>; open spec fn jv(&self) -> Seq<Token> { self@ } }
impl VJ for CST { type V = CST; open spec fn jv(&self) -> CST { *self } }
impl VJ for AST { type V = AST; open spec fn jv(&self) -> AST { *self } }
pub mod serde_json { use super::*; #[verifier::external_body] pub fn to_string<T: VJ>(t: &T) -> (r: Result<String>) ensures match r { Ok(s) => jsontext(t.jv()) == Some(s@), Err(_) => jsontext(t.jv()) is None } { unimplemented!() } }
// the regular expression that finds a plugin's name in a file's
#[verifier::external_body] pub struct Regex { x: u8 }
pub struct Captures<'a> { pub s: &'a str, pub of: Ghost<(Seq<char>, Seq<char>)> }
pub struct Match<'a> { pub s: &'a str, pub t: Ghost<Seq<char>> }
pub uninterp spec fn pat_of(r: Regex) -> Seq<char>;
pub uninterp spec fn matches(p: Seq<char>, t: Seq<char>) -> bool;
pub uninterp spec fn group(p: Seq<char>, t: Seq<char>, n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn regex(p: Seq<char>) -> bool;
impl Regex {
  #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex>) ensures r is Ok <==> regex(p@), r matches Ok(x) ==> pat_of(x) == p@ { unimplemented!() }
  #[verifier::external_body] pub fn captures<'a>(&self, t: &'a str) -> (r: Option<Captures<'a>>) ensures r is Some <==> matches(pat_of(*self), t@), r matches Some(c) ==> c.of@ == (pat_of(*self), t@) { unimplemented!() }
}
impl<'a> Captures<'a> { #[verifier::external_body] pub fn name(&self, n: &str) -> (r: Option<Match<'a>>) ensures match r { Some(m) => group(self.of@.0, self.of@.1, n@) == Some(m.t@), None => group(self.of@.0, self.of@.1, n@) is None } { unimplemented!() }
  #[verifier::external_body] pub fn vx_at(&self, n: &str) -> (r: &'a str) requires group(self.of@.0, self.of@.1, n@) is Some ensures group(self.of@.0, self.of@.1, n@) == Some(r@) { unimplemented!() } }
impl<'a> Match<'a> { #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.t@ { unimplemented!() } }
pub open spec fn alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn alnums(h: Seq<char>) -> bool { h.len() > 0 && forall|i: int| 0 <= i < h.len() ==> alnum(#[trigger] h[i]) }
// NAME_HASH.wasm
pub open spec fn split_as(f: Seq<char>, m: Seq<char>, h: Seq<char>) -> bool { m.len() > 0 && !m.contains('\n') && alnums(h) && f == m + ("_"@ + (h + ".wasm"@)) }
pub open spec fn for_module(f: Seq<char>, m: Seq<char>) -> bool { exists|h: Seq<char>| split_as(f, m, h) }
pub broadcast axiom fn axiom_pattern(t: Seq<char>)
  ensures #![trigger matches("^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@, t)]
    matches("^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@, t) == (exists|m: Seq<char>| #[trigger] for_module(t, m)),
    matches("^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@, t) ==> (group("^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@, t, "module_name"@) matches Some(m) && for_module(t, m));
pub broadcast axiom fn axiom_regex(p: Seq<char>) ensures #![trigger regex(p)] p == "^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@ ==> regex(p);
broadcast use {axiom_pattern, axiom_regex};
pub proof fn lemma_parts(f: Seq<char>, m: Seq<char>, h: Seq<char>) requires split_as(f, m, h)
  ensures f.len() == m.len() + h.len() + 6, m =~= f.take(m.len() as int), f[m.len() as int] == '_', forall|j: int| m.len() < j <= m.len() + h.len() ==> alnum(#[trigger] f[j])
{
  reveal_strlit("_"); reveal_strlit(".wasm");
  let t = h + ".wasm"@; let u = "_"@ + t; assert(u[0] == '_'); assert(f[m.len() as int] == u[0]);
  assert forall|j: int| m.len() < j <= m.len() + h.len() implies alnum(#[trigger] f[j]) by { let i = j - m.len(); assert(f[j] == u[i]); assert(u[i] == t[i - 1]); assert(t[i - 1] == h[i - 1]); }
}
pub proof fn lemma_module(f: Seq<char>, m: Seq<char>, n: Seq<char>) requires for_module(f, m), for_module(f, n) ensures m == n
{
  let h = choose|h: Seq<char>| split_as(f, m, h); let k = choose|h: Seq<char>| split_as(f, n, h);
  lemma_parts(f, m, h); lemma_parts(f, n, k);
  if n.len() < m.len() { assert(alnum(f[m.len() as int])); }
  if m.len() < n.len() { assert(alnum(f[n.len() as int])); }
}
pub open spec fn is_for(e: Option<PathBuf>, m: Seq<char>) -> bool { e matches Some(p) && (name(p) matches Some(f) && for_module(f, m)) }
// the file a module is loaded from: the last one for it
pub open spec fn file_for(l: Seq<Option<PathBuf>>, n: int, m: Seq<char>) -> Option<PathBuf> decreases n { if n <= 0 || n > l.len() { None } else if is_for(l[n - 1], m) { l[n - 1] } else { file_for(l, n - 1, m) } }
pub open spec fn no_hooks(f: FeatureFlag) -> bool { !f.document_hook && !f.stmt_hook && !f.expr_hook && !f.text_hook }
#[verifier::opaque] pub open spec fn chosen(l: Seq<Option<PathBuf>>, n: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>) -> bool {
  forall|m: Seq<char>| match #[trigger] file_for(l, n, m) { Some(p) => t.contains_key(m) && t[m].0 == p && no_hooks(t[m].1), None => !t.contains_key(m) }
}
pub proof fn lemma_chosen(l: Seq<Option<PathBuf>>, n: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>)
  requires chosen(l, n, t), 0 <= n < l.len()
  ensures !(exists|m: Seq<char>| #[trigger] is_for(l[n], m)) ==> chosen(l, n + 1, t), forall|m: Seq<char>, v: (PathBuf, FeatureFlag)| #[trigger] is_for(l[n], m) && l[n] == Some(v.0) && no_hooks(v.1) ==> chosen(l, n + 1, #[trigger] t.insert(m, v))
{
  reveal(chosen);
  assert forall|m: Seq<char>, v: (PathBuf, FeatureFlag)| #[trigger] is_for(l[n], m) && l[n] == Some(v.0) && no_hooks(v.1) implies chosen(l, n + 1, #[trigger] t.insert(m, v)) by {
    let u = t.insert(m, v);
    assert forall|k: Seq<char>| match #[trigger] file_for(l, n + 1, k) { Some(p) => u.contains_key(k) && u[k].0 == p && no_hooks(u[k].1), None => !u.contains_key(k) } by {
      if is_for(l[n], k) { lemma_module(name(l[n]->Some_0)->Some_0, m, k); } else { assert(file_for(l, n + 1, k) == file_for(l, n, k)); assert(k != m); }
    }
  }
  if !(exists|m: Seq<char>| #[trigger] is_for(l[n], m)) { assert forall|k: Seq<char>| match #[trigger] file_for(l, n + 1, k) { Some(p) => t.contains_key(k) && t[k].0 == p && no_hooks(t[k].1), None => !t.contains_key(k) } by { assert(!is_for(l[n], k)); assert(file_for(l, n + 1, k) == file_for(l, n, k)); } }
}
impl FeatureFlag { pub fn default() -> (r: FeatureFlag) ensures no_hooks(r) { FeatureFlag { document_hook: false, stmt_hook: false, expr_hook: false, text_hook: false } } }
pub open spec fn the(t: HashMap<String, (PathBuf, FeatureFlag)>) -> Project { Project { plugins_metadata: t, config: arbitrary(), root: arbitrary() } }
pub open spec fn starting(l: Seq<Option<PathBuf>>, w: W) -> bool { exists|t: HashMap<String, (PathBuf, FeatureFlag)>| chosen(l, l.len() as int, t.m()) && #[trigger] start(the(t), w) }
pub open spec fn unloadable(l: Seq<Option<PathBuf>>) -> bool { exists|t: HashMap<String, (PathBuf, FeatureFlag)>| chosen(l, l.len() as int, t.m()) && #[trigger] broken_project(the(t)) }
pub open spec fn nameless(l: Seq<Option<PathBuf>>) -> bool { exists|i: int| 0 <= i < l.len() && (match #[trigger] l[i] { Some(p) => name(p) is None, None => true }) }
pub open spec fn lines<T>(v: Seq<T>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| debugged(v[i])) }
pub open spec fn one_of(o: Option<Seq<char>>) -> Option<Seq<Seq<char>>> { match o { Some(t) => Some(seq![t]), None => None } }
pub open spec fn expansion(f: PathBuf, w: W) -> Option<AST> { match syntax(f) { Some(a) => expanded(a, w), None => None } }
pub open spec fn parsing(f: PathBuf) -> Option<CST> { match tokenized(f) { Some(ts) => parsed(ts), None => None } }
// what is printed for a file: the result of the stage asked for
pub open spec fn shown(level: u8, json: bool, f: PathBuf, w: W) -> Option<Seq<Seq<char>>> {
  if level == 1 { match tokenized(f) { Some(ts) => if json { one_of(jsontext(ts)) } else { Some(lines(ts)) }, None => None } }
  else if level == 2 { match parsing(f) { Some(c) => if json { one_of(jsontext(c)) } else { Some(seq![debugged(c)]) }, None => None } }
  else if level == 3 { match parsing(f) { Some(c) => if json { one_of(jsontext(tree(c))) } else if faults(c).len() > 0 { Some(lines(faults(c))) } else { Some(seq![debugged(tree(c))]) }, None => None } }
  else if level == 4 { match expansion(f, w) { Some(a) => if json { one_of(jsontext(a)) } else { Some(seq![debugged(a)]) }, None => None } }
  else if level == 5 { if json { None } else { one_of(compiled(f, w)) } }
  else { None }
}
pub open spec fn folder(d: Option<String>) -> Seq<char> { match d { Some(d) => d@, None => match variable("BRACK_PLUGINS_PATH"@) { Some(d) => d, None => Seq::empty() } } }
// the plugins' folder as the command finds it
pub open spec fn asked(c: SubCommands, a: VIo) -> Seq<Option<PathBuf>> { listing(folder(c->Compile_plugins_dir_path), writes(a)) }
pub open spec fn ran(d: Option<String>, f: String, level: u8, json: bool, a: VIo, b: VIo) -> bool {
  let l = listing(folder(d), writes(a)); &&& writes(b) == writes(a) &&& ends(f@, ".[]"@)
  &&& exists|w: W| #[trigger] starting(l, w) && shown(level, json, named_by(f@), w) is Some && printed(b) =~= printed(a) + shown(level, json, named_by(f@), w)->Some_0
}
pub open spec fn refused(d: Option<String>, f: String, level: u8, json: bool, a: VIo, b: VIo) -> bool {
  let l = listing(folder(d), writes(a)); printed(b) == printed(a) && (failed(b) || nameless(l) || unloadable(l) || !ends(f@, ".[]"@) || (exists|w: W| #[trigger] starting(l, w) && shown(level, json, named_by(f@), w) is None))
}
@fn brack_main::run_compile io
  requires $0 is Compile
  ensures $0 matches SubCommands::Compile { plugins_dir_path, backend: _, filename, output_level, json } && (match r { Ok(_) => ran(plugins_dir_path, filename, output_level, json, *old(vx_io), *final(vx_io)), Err(_) => refused(plugins_dir_path, filename, output_level, json, *old(vx_io), *final(vx_io)) })
@hook entry
  let ghost l = asked($0, *vx_io);
@hook before loop 0
  proof { reveal(chosen); }
@loop 0
  invariant vx_i0 <= l.len(), l == in_dir(vx_s0), l == asked($0, *old(vx_io)), $0 is Compile, chosen(l, vx_i0 as int, pathes.m()), same_files(*old(vx_io), *vx_io), pat_of(pattern) == "^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@
  decreases l.len() - vx_i0
@hook loop 0 item
  let ghost was = pathes.m();
  proof { let i = vx_i0 - 1; assert(entry is Err ==> l[i] is None); lemma_chosen(l, i, pathes.m()); if l[i] is None { assert(nameless(l)); } else if name(l[i]->Some_0) is None { assert(nameless(l)); } }
@hook loop 0 end
  proof {
    let i = vx_i0 - 1; let f = name(path)->Some_0; let p = "^(?<module_name>.+)_[[:alnum:]]+\\.wasm$"@;
    assert(l[i] == Some(path)); assert(matches(p, f) == matches(p, f));
    if exists|m: Seq<char>| for_module(f, m) { let m = group(p, f, "module_name"@)->Some_0; assert(is_for(l[i], m)); assert(pathes.m() == was.insert(m, pathes.m()[m])); }
    else { assert forall|m: Seq<char>| !#[trigger] is_for(l[i], m) by { assert(!for_module(f, m)); } assert(pathes.m() == was); }
  }
@hook before loop 1
  let ghost p = the(pathes);
  proof { reveal(all_loaded); }
@loop 1
  invariant vx_i1 <= vx_s1.entries().len(), vx_s1 == p.plugins_metadata, all_loaded(p, plugin_vec@, vx_i1 as int), chosen(l, l.len() as int, p.plugins_metadata.m()), l == asked($0, *old(vx_io)), $0 is Compile, p == the(pathes), printed(*vx_io) == printed(*old(vx_io))
  decreases vx_s1.entries().len() - vx_i1
@hook loop 1 item
  let ghost v = plugin_vec@;
  proof { p.plugins_metadata.lemma_entries(); reveal(all_loaded); let k = vx_s1.entries()[vx_i1 - 1].0.key(); assert(p.plugins_metadata.m().contains_key(k)); assert(starts(p, k) == starts(p, k)); assert(broken_project(p) ==> unloadable(l)); }
@hook loop 1 end
  proof { let q = plugin_vec@[v.len() as int]; assert(plugin_vec@ =~= v.push(q)); lemma_load(p, v, q); }
@hook after loop 1
  let ghost loaded = plugin_vec@;
  proof {
    if nclaims(loaded, loaded.len(), Hk::Document) > 1 { lemma_clash(p, loaded, Hk::Document); } if nclaims(loaded, loaded.len(), Hk::Stmt) > 1 { lemma_clash(p, loaded, Hk::Stmt); }
    if nclaims(loaded, loaded.len(), Hk::Expr) > 1 { lemma_clash(p, loaded, Hk::Expr); } if nclaims(loaded, loaded.len(), Hk::Text) > 1 { lemma_clash(p, loaded, Hk::Text); }
    assert(broken_project(p) ==> unloadable(l));
  }
@hook after call Plugins::new 0
  let ghost w0 = world(plugins);
  proof { lemma_registry(p, loaded, plugins.name_to_plugin); assert(start(p, w0)); assert(starting(l, w0)); }
@loop 2
  invariant vx_i2 <= vx_s2@.len(), printed(*vx_io) =~= printed(*old(vx_io)) + lines(vx_s2@.take(vx_i2 as int)), writes(*vx_io) == writes(*old(vx_io))
  decreases vx_s2@.len() - vx_i2
@loop 3
  invariant vx_i3 <= vx_s3@.len(), printed(*vx_io) =~= printed(*old(vx_io)) + lines(vx_s3@.take(vx_i3 as int)), writes(*vx_io) == writes(*old(vx_io))
  decreases vx_s3@.len() - vx_i3
@literal ^(?<module_name>.+)_[[:alnum:]]+\.wasm$
