@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/maps.rs
@include ../lib/disk.rs
@include ../lib/web.rs
@thread .exists fs::write fs::rename fs::create_dir_all
@no-print
@rename unwrap_or_default vx_or_default
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
use crate::brack_project_manager::plugin::PluginSchema;
use crate::brack_project_manager::project::Project;
use crate::brack_project_manager::config::Config;
pub trait VOrDefault { type O; fn vx_or_default(self) -> (r: Self::O) ensures self.vx_defp(r); spec fn vx_defp(&self, r: Self::O) -> bool; }
impl VOrDefault for Option<bool> { type O = bool; open spec fn vx_defp(&self, r: bool) -> bool { r == (*self == Some(true)) } fn vx_or_default(self) -> (r: bool) { match self { Some(b) => b, None => false } } }
// the digest of a text, in hexadecimal: as good as the text itself
pub struct Sha256 { pub t: Ghost<Seq<char>> }
pub struct Digest { pub t: Ghost<Seq<char>> }
impl Sha256 {
  #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r.t@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn update(&mut self, s: String) ensures final(self).t@ == old(self).t@ + s@ { unimplemented!() }
  #[verifier::external_body] pub fn finalize(self) -> (r: Digest) ensures r.t@ == self.t@ { unimplemented!() }
}
pub uninterp spec fn digest(t: Seq<char>) -> Seq<char>;
pub open spec fn alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub broadcast axiom fn axiom_hexed(d: Digest) ensures #![trigger hexed(d)] hexed(d) == digest(d.t@);
pub broadcast axiom fn axiom_digest(t: Seq<char>) ensures #![trigger digest(t)] digest(t).len() == 64 && (forall|i: int| 0 <= i < 64 ==> alnum(#[trigger] digest(t)[i]));
pub axiom fn axiom_collision(t: Seq<char>, u: Seq<char>) requires digest(t) == digest(u) ensures t == u;
// the debug text of a text or of a plugin's entry says which it is, wherever it stands
pub axiom fn axiom_debug_plugin(a: PluginSchema, b: PluginSchema, x: Seq<char>, y: Seq<char>) requires debugged(a) + x == debugged(b) + y ensures a == b, x == y;
pub axiom fn axiom_debug_text(a: &str, b: &str) requires debugged(a) == debugged(b) ensures a@ == b@;
pub broadcast axiom fn axiom_debug_ref<T>(a: &T) ensures #![trigger debugged(a)] debugged(a) == debugged(*a);
broadcast use {axiom_hexed, axiom_digest, axiom_debug_ref};
// what tells one release from another
pub uninterp spec fn strof(s: Seq<char>) -> &'static str;
pub broadcast axiom fn axiom_strof(s: &str) ensures #![trigger debugged(s)] debugged(s) == debugged(strof(s@));
pub broadcast axiom fn axiom_strof_view(s: Seq<char>) ensures #![trigger strof(s)] strof(s)@ == s;
broadcast use {axiom_strof, axiom_strof_view};
pub open spec fn label(p: PluginSchema, b: Seq<char>) -> Seq<char> { debugged(p) + " "@ + debugged(strof(b)) }
pub open spec fn cache(n: Seq<char>, p: PluginSchema, b: Seq<char>) -> Seq<char> { "plugins/"@ + n + "_"@ + digest(label(p, b)) + ".wasm"@ }
pub open spec fn address(n: Seq<char>, p: PluginSchema, b: Seq<char>) -> Seq<char> { match p { PluginSchema::GitHub { owner, repo, version, .. } => "https://github.com/"@ + owner@ + "/"@ + repo@ + "/releases/download/"@ + version@ + "/"@ + n + "."@ + b + ".wasm"@ } }
// every plugin file is the release it is named after
#[verifier::opaque] pub open spec fn sound(d: Map<Seq<char>, Seq<u8>>) -> bool { forall|n: Seq<char>, p: PluginSchema, b: Seq<char>| d.contains_key(#[trigger] cache(n, p, b)) ==> release(address(n, p, b)) == Some(d[cache(n, p, b)]) }
pub proof fn lemma_cache(n: Seq<char>, p: PluginSchema, b: Seq<char>, m: Seq<char>, q: PluginSchema, c: Seq<char>) requires cache(n, p, b) == cache(m, q, c) ensures n == m, p == q, b == c
{
  reveal_strlit("plugins/"); reveal_strlit("_"); reveal_strlit(".wasm"); reveal_strlit(" ");
  let (x, y) = (digest(label(p, b)), digest(label(q, c)));
  let f = cache(n, p, b); 
  assert("plugins/"@.len() == 8 && "_"@.len() == 1 && ".wasm"@.len() == 5); axiom_digest(label(p, b)); axiom_digest(label(q, c)); assert(x.len() == 64); assert(y.len() == 64);
  assert(f.len() == n.len() + 78); assert(f == cache(m, q, c)); assert(f.len() == m.len() + 78);
  assert(n =~= f.subrange(8, 8 + n.len() as int)); assert(m =~= f.subrange(8, 8 + m.len() as int));
  assert(x =~= f.subrange(9 + n.len() as int, 73 + n.len() as int)); assert(y =~= f.subrange(9 + m.len() as int, 73 + m.len() as int));
  axiom_collision(label(p, b), label(q, c));
  assert(label(p, b) =~= debugged(p) + (" "@ + debugged(strof(b)))); assert(label(q, c) =~= debugged(q) + (" "@ + debugged(strof(c))));
  axiom_debug_plugin(p, q, " "@ + debugged(strof(b)), " "@ + debugged(strof(c)));
  assert(debugged(strof(b)) =~= (" "@ + debugged(strof(b))).skip(1)); assert(debugged(strof(c)) =~= (" "@ + debugged(strof(c))).skip(1));
  axiom_debug_text(strof(b), strof(c)); axiom_strof_view(b); axiom_strof_view(c);
}
pub proof fn lemma_place(d: Map<Seq<char>, Seq<u8>>, n: Seq<char>, p: PluginSchema, b: Seq<char>, w: Seq<u8>) requires sound(d), release(address(n, p, b)) == Some(w) ensures sound(d.insert(cache(n, p, b), w))
{ reveal(sound); let e = d.insert(cache(n, p, b), w); assert forall|m: Seq<char>, q: PluginSchema, c: Seq<char>| e.contains_key(#[trigger] cache(m, q, c)) implies release(address(m, q, c)) == Some(e[cache(m, q, c)]) by { if cache(m, q, c) == cache(n, p, b) { lemma_cache(m, q, c, n, p, b); } } }
// the file to write first
pub open spec fn base(n: Seq<char>, p: PluginSchema, b: Seq<char>) -> Seq<char> { "plugins/"@ + n + "_"@ + digest(label(p, b)) }
pub open spec fn part(n: Seq<char>, p: PluginSchema, b: Seq<char>) -> Seq<char> { base(n, p, b) + ("."@ + "part"@) }
pub proof fn lemma_part(n: Seq<char>, p: PluginSchema, b: Seq<char>)
  ensures cache(n, p, b) == base(n, p, b) + ("."@ + "wasm"@), dotless("wasm"@), base(n, p, b).len() > 0, base(n, p, b).last() != '/', !trusted(part(n, p, b)), forall|m: Seq<char>, q: PluginSchema, c: Seq<char>| #[trigger] cache(m, q, c) != part(n, p, b)
{
  reveal_strlit("plugins/"); reveal_strlit("_"); reveal_strlit(".wasm"); reveal_strlit("."); reveal_strlit("wasm"); reveal_strlit("part");
  assert(".wasm"@ =~= "."@ + "wasm"@); axiom_digest(label(p, b)); let x = base(n, p, b); let d = digest(label(p, b));
  assert(x.last() == d[63]); assert(alnum(d[63]));
  let f = part(n, p, b); assert(f[f.len() - 1] == "part"@[3]);
  if trusted(f) { assert(f.skip(f.len() - 5)[4] == 'm'); }
  assert forall|m: Seq<char>, q: PluginSchema, c: Seq<char>| #[trigger] cache(m, q, c) != f by { let g = cache(m, q, c); assert(g[g.len() - 1] == ".wasm"@[4]); }
}
pub open spec fn on(o: Option<bool>) -> bool { o == Some(true) }
pub open spec fn flags(f: FeatureFlag, p: PluginSchema) -> bool { match p { PluginSchema::GitHub { expr_hook, stmt_hook, document_hook, text_hook, .. } => f.expr_hook == on(expr_hook) && f.stmt_hook == on(stmt_hook) && f.document_hook == on(document_hook) && f.text_hook == on(text_hook) } }
pub proof fn lemma_beside(d: Map<Seq<char>, Seq<u8>>, n: Seq<char>, p: PluginSchema, b: Seq<char>) requires sound(d) ensures forall|g: Map<Seq<char>, Seq<u8>>| beside(d, g, part(n, p, b)) ==> #[trigger] sound(g)
{ reveal(sound); lemma_part(n, p, b); assert forall|g: Map<Seq<char>, Seq<u8>>| beside(d, g, part(n, p, b)) implies #[trigger] sound(g) by { assert forall|m: Seq<char>, q: PluginSchema, c: Seq<char>| g.contains_key(#[trigger] cache(m, q, c)) implies release(address(m, q, c)) == Some(g[cache(m, q, c)]) by { let x = cache(m, q, c); assert(x != part(n, p, b)); assert(d[x] == g[x]); } } }
// a plugin is known under its name, with its flags and with its file
pub open spec fn ready(n: Seq<char>, p: PluginSchema, b: Seq<char>, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>) -> bool {
  t.contains_key(n) && ptext(t[n].0) == cache(n, p, b) && flags(t[n].1, p) && d.contains_key(cache(n, p, b))
}
// what a download yields
pub open spec fn fetched(n: Seq<char>, p: PluginSchema, b: Seq<char>, v: Result<(String, PathBuf, Bytes, FeatureFlag)>) -> bool {
  v matches Ok(x) ==> x.0@ == n && ptext(x.1) == cache(n, p, b) && flags(x.3, p) && release(address(n, p, b)) == Some(bytes(x.2))
}
pub open spec fn ent(e: Seq<(String, PluginSchema)>, i: int) -> (Seq<char>, PluginSchema) { (e[i].0@, e[i].1) }
// task k downloads entry o[k]
#[verifier::opaque] pub open spec fn tasked(e: Seq<(String, PluginSchema)>, b: Seq<char>, o: Seq<int>, v: Seq<JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>>>, i: int) -> bool {
  o.len() == v.len() && forall|k: int| 0 <= k < o.len() ==> 0 <= (#[trigger] o[k]) < i && fetched(e[o[k]].0@, e[o[k]].1, b, v[k].v)
}
// of the first i entries, those that no task from k on downloads are ready
#[verifier::opaque] pub open spec fn rest(e: Seq<(String, PluginSchema)>, b: Seq<char>, o: Seq<int>, k: int, i: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>) -> bool {
  forall|j: int| 0 <= j < i ==> ready((#[trigger] e[j]).0@, e[j].1, b, t, d) || exists|l: int| k <= l < o.len() && #[trigger] o[l] == j
}
// plugins the configuration does not name are as before
#[verifier::opaque] pub open spec fn others(e: Seq<(String, PluginSchema)>, s: Map<Seq<char>, (PathBuf, FeatureFlag)>, t: Map<Seq<char>, (PathBuf, FeatureFlag)>) -> bool {
  forall|n: Seq<char>| (forall|j: int| 0 <= j < e.len() ==> (#[trigger] e[j]).0@ != n) ==> (#[trigger] t.contains_key(n) == s.contains_key(n)) && (t.contains_key(n) ==> t[n] == s[n])
}
pub open spec fn differ(e: Seq<(String, PluginSchema)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.key() != (#[trigger] e[j]).0.key() }
pub proof fn lemma_started(e: Seq<(String, PluginSchema)>, b: Seq<char>, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>) ensures rest(e, b, Seq::empty(), 0, 0, t, d), tasked(e, b, Seq::empty(), Seq::empty(), 0), others(e, t, t) { reveal(rest); reveal(tasked); reveal(others); }
// an entry whose file is there already
pub proof fn lemma_there(e: Seq<(String, PluginSchema)>, b: Seq<char>, o: Seq<int>, v: Seq<JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>>>, i: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>, s: Map<Seq<char>, (PathBuf, FeatureFlag)>, x: (PathBuf, FeatureFlag))
  requires differ(e), 0 <= i < e.len(), tasked(e, b, o, v, i), rest(e, b, o, 0, i, t, d), others(e, s, t), ready(e[i].0@, e[i].1, b, t.insert(e[i].0@, x), d)
  ensures tasked(e, b, o, v, i + 1), rest(e, b, o, 0, i + 1, t.insert(e[i].0@, x), d), others(e, s, t.insert(e[i].0@, x))
{
  reveal(rest); reveal(tasked); reveal(others); let u = t.insert(e[i].0@, x);
  assert forall|j: int| 0 <= j < i + 1 implies ready((#[trigger] e[j]).0@, e[j].1, b, u, d) || exists|l: int| 0 <= l < o.len() && #[trigger] o[l] == j by { if j < i { assert(e[j].0.key() != e[i].0.key()); } }
}
// an entry whose download is started
pub proof fn lemma_task(e: Seq<(String, PluginSchema)>, b: Seq<char>, o: Seq<int>, v: Seq<JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>>>, i: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>, h: JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>>)
  requires 0 <= i < e.len(), tasked(e, b, o, v, i), rest(e, b, o, 0, i, t, d), fetched(e[i].0@, e[i].1, b, h.v)
  ensures tasked(e, b, o.push(i), v.push(h), i + 1), rest(e, b, o.push(i), 0, i + 1, t, d)
{
  reveal(rest); reveal(tasked); let p = o.push(i);
  assert forall|j: int| 0 <= j < i + 1 implies ready((#[trigger] e[j]).0@, e[j].1, b, t, d) || exists|l: int| 0 <= l < p.len() && #[trigger] p[l] == j by { if j < i { if !ready(e[j].0@, e[j].1, b, t, d) { let l = choose|l: int| 0 <= l < o.len() && #[trigger] o[l] == j; assert(p[l] == j); } } else { assert(p[o.len() as int] == i); } }
  assert forall|k: int| 0 <= k < p.len() implies 0 <= (#[trigger] p[k]) < i + 1 && fetched(e[p[k]].0@, e[p[k]].1, b, v.push(h)[k].v) by { if k < o.len() { assert(o[k] == p[k]); } }
}
// the k-th download is put in its place
pub proof fn lemma_placed(e: Seq<(String, PluginSchema)>, b: Seq<char>, o: Seq<int>, v: Seq<JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>>>, k: int, t: Map<Seq<char>, (PathBuf, FeatureFlag)>, d: Map<Seq<char>, Seq<u8>>, s: Map<Seq<char>, (PathBuf, FeatureFlag)>, u: Map<Seq<char>, (PathBuf, FeatureFlag)>, f: Map<Seq<char>, Seq<u8>>)
  requires differ(e), tasked(e, b, o, v, e.len() as int), 0 <= k < v.len(), v[k].v is Ok, rest(e, b, o, k, e.len() as int, t, d), others(e, s, t), ({ let x = v[k].v->Ok_0; u == t.insert(x.0@, (x.1, x.3)) && f.contains_key(ptext(x.1)) }), forall|n: Seq<char>, p: PluginSchema, c: Seq<char>| d.contains_key(#[trigger] cache(n, p, c)) ==> f.contains_key(cache(n, p, c))
  ensures rest(e, b, o, k + 1, e.len() as int, u, f), others(e, s, u)
{
  reveal(rest); reveal(tasked); reveal(others); let x = v[k].v->Ok_0; let i = o[k]; assert(fetched(e[i].0@, e[i].1, b, v[k].v)); assert(ready(e[i].0@, e[i].1, b, u, f));
  assert forall|j: int| 0 <= j < e.len() implies ready((#[trigger] e[j]).0@, e[j].1, b, u, f) || exists|l: int| k + 1 <= l < o.len() && #[trigger] o[l] == j by {
    if j != i { assert(e[j].0.key() != e[i].0.key()); if !ready(e[j].0@, e[j].1, b, t, d) { let l = choose|l: int| k <= l < o.len() && #[trigger] o[l] == j; assert(o[l] == j && l != k); } }
  }
}
pub open spec fn plugs(p: Project) -> Map<Seq<char>, PluginSchema> { match p.config.plugins { Some(t) => t.m(), None => Map::empty() } }
// every plugin of the configuration is ready; the others are as before
pub open spec fn all_ready(p: Project, q: Project, d: Map<Seq<char>, Seq<u8>>) -> bool {
  forall|n: Seq<char>| if #[trigger] plugs(p).contains_key(n) { ready(n, plugs(p)[n], p.config.document.backend@, q.plugins_metadata.m(), d) } else { q.plugins_metadata.m().contains_key(n) == p.plugins_metadata.m().contains_key(n) && (p.plugins_metadata.m().contains_key(n) ==> q.plugins_metadata.m()[n] == p.plugins_metadata.m()[n]) }
}
pub proof fn lemma_all(t: HashMap<String, PluginSchema>, p: Project, q: Project, d: Map<Seq<char>, Seq<u8>>, o: Seq<int>)
  requires p.config.plugins == Some(t), rest(t.entries(), p.config.document.backend@, o, o.len() as int, t.entries().len() as int, q.plugins_metadata.m(), d), others(t.entries(), p.plugins_metadata.m(), q.plugins_metadata.m())
  ensures all_ready(p, q, d)
{
  reveal(rest); reveal(others); t.lemma_entries();
  assert forall|n: Seq<char>| if #[trigger] plugs(p).contains_key(n) { ready(n, plugs(p)[n], p.config.document.backend@, q.plugins_metadata.m(), d) } else { q.plugins_metadata.m().contains_key(n) == p.plugins_metadata.m().contains_key(n) && (p.plugins_metadata.m().contains_key(n) ==> q.plugins_metadata.m()[n] == p.plugins_metadata.m()[n]) } by {
    if plugs(p).contains_key(n) { let i = t.lemma_at(n); assert(t.entries()[i].0@ == n); } else { assert forall|j: int| 0 <= j < t.entries().len() implies (#[trigger] t.entries()[j]).0@ != n by { assert(t.m().contains_key(t.entries()[j].0.key())); } assert(q.plugins_metadata.m().contains_key(n) == p.plugins_metadata.m().contains_key(n)); }
  }
}
@fn brack_project_manager::plugin::PluginSchema::hash_sha256
  ensures r@ == digest(label(*$0, $1@))
@fn brack_project_manager::project::Project::download_plugins_using_config io
  requires sound(disk(*old(vx_io)))
  ensures sound(disk(*final(vx_io))), final($0).config == old($0).config, r is Ok ==> all_ready(*old($0), *final($0), disk(*final(vx_io)))
@hook outside loop 0
  let ghost e = old($0).config.plugins->Some_0.entries();
  let ghost b = $0.config.document.backend@;
  let ghost mut o: Seq<int> = Seq::empty();
  proof { old($0).config.plugins->Some_0.lemma_entries(); lemma_started(e, b, $0.plugins_metadata.m(), disk(*vx_io)); }
@loop 0
  invariant vx_i0 <= e.len(), e == vx_s0.entries(), differ(e), b == $0.config.document.backend@, sound(disk(*vx_io)), $0.config == old($0).config, tasked(e, b, o, tasks@, vx_i0 as int), rest(e, b, o, 0, vx_i0 as int, $0.plugins_metadata.m(), disk(*vx_io)), others(e, old($0).plugins_metadata.m(), $0.plugins_metadata.m())
  decreases e.len() - vx_i0
@hook loop 0 item
  let ghost i = vx_i0 - 1;
  let ghost v = tasks@;
  let ghost t = $0.plugins_metadata.m();
@hook after call hash_sha256 0
  proof { assert(ptext(path) =~= cache(e[i].0@, e[i].1, b)); }
@hook loop 0 end
  proof { if tasks@.len() == v.len() { lemma_there(e, b, o, v, i, t, disk(*vx_io), old($0).plugins_metadata.m(), $0.plugins_metadata.m()[e[i].0@]); } else { let h = tasks@[v.len() as int]; lemma_task(e, b, o, v, i, t, disk(*vx_io), h); assert(tasks@ == v.push(h)); o = o.push(i); } }
@hook call join_all 0
  let ghost js = tasks@;
@loop 1
  invariant vx_i1 <= vx_s1@.len(), vx_s1@.len() == js.len(), forall|k: int| 0 <= k < vx_s1@.len() ==> ((#[trigger] vx_s1@[k]) matches Ok(x) ==> x == js[k].v), e == old($0).config.plugins->Some_0.entries(), b == old($0).config.document.backend@, $0.config == old($0).config, differ(e), sound(disk(*vx_io)), tasked(e, b, o, js, e.len() as int), rest(e, b, o, vx_i1 as int, e.len() as int, $0.plugins_metadata.m(), disk(*vx_io)), others(e, old($0).plugins_metadata.m(), $0.plugins_metadata.m())
  decreases vx_s1@.len() - vx_i1
@hook loop 1 item
  let ghost k = vx_i1 - 1;
  let ghost t = $0.plugins_metadata.m();
  let ghost d = disk(*vx_io);
  let ghost (n, p) = (e[o[k]].0@, e[o[k]].1);
  proof { reveal(tasked); assert(0 <= o[k] < e.len()); lemma_part(n, p, b); lemma_beside(d, n, p, b); assert(beside(d, d, part(n, p, b))); if js[k].v is Ok { assert(fetched(n, p, b, js[k].v)); assert(ptext(js[k].v->Ok_0.1) == cache(n, p, b)); } }
@hook loop 1 end
  proof {
    let x = js[k].v->Ok_0; let g = disk(*vx_io); lemma_place(d, n, p, b, crate::vx::bytes(x.2));
    assert(sound(g)) by { reveal(sound); assert forall|m: Seq<char>, q: PluginSchema, c: Seq<char>| g.contains_key(#[trigger] cache(m, q, c)) implies release(address(m, q, c)) == Some(g[cache(m, q, c)]) by { assert(d.insert(cache(n, p, b), crate::vx::bytes(x.2)).contains_key(cache(m, q, c))); } }
    lemma_placed(e, b, o, js, k, t, d, old($0).plugins_metadata.m(), $0.plugins_metadata.m(), g);
  }
@hook after loop 1
  proof { reveal(tasked); lemma_all(old($0).config.plugins->Some_0, *old($0), *$0, disk(*vx_io), o); }
