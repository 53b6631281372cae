@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_expander /repo/crates/brack-expander/src/lib.rs
@crate brack_codegen /repo/crates/brack-codegen/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/loadfns.vx
@include ../lib/maps.rs
@include ../lib/files.rs
@include ../lib/project.rs
@include ../lib/stages.vx
@include ../lib/startup.rs
@thread fs::create_dir_all fs::read_dir fs::write fs::remove_dir_all fs::create_dir
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
// a document of the project, and its output file
pub open spec fn document(e: Option<PathBuf>) -> bool { e matches Some(p) && has_ext(p, "[]"@) }
// the same path, put together otherwise
pub proof fn lemma_joined(st: Seq<char>, b: Seq<char>) requires st.len() > 0, !st.contains('/')
  ensures "out/"@ + st + "."@ + b == "out"@ + "/"@ + (st + "."@ + b), (st + "."@ + b).len() > 0, (st + "."@ + b)[0] != '/', "out"@.len() == 3, "out"@.last() == 't'
{ reveal_strlit("out/"); reveal_strlit("out"); reveal_strlit("/"); reveal_strlit("."); assert("out/"@ + st + "."@ + b =~= "out"@ + "/"@ + (st + "."@ + b)); assert(st.contains(st[0])); assert((st + "."@ + b)[0] == st[0]); }
pub open spec fn output(p: PathBuf, backend: Seq<char>) -> Seq<char> { "out/"@ + stem(p)->Some_0 + "."@ + backend }
// the registry before the i-th entry is compiled, and what the first n entries yield
pub open spec fn before(l: Seq<Option<PathBuf>>, n: int, w: W) -> W decreases n { if n <= 0 || n > l.len() { w } else if document(l[n - 1]) { compiling(l[n - 1]->Some_0, before(l, n - 1, w)) } else { before(l, n - 1, w) } }
pub open spec fn built(l: Seq<Option<PathBuf>>, n: int, w: W, b: Seq<char>) -> Seq<(Seq<char>, Seq<char>)> decreases n {
  if n <= 0 || n > l.len() { Seq::empty() } else if document(l[n - 1]) { built(l, n - 1, w, b).push((output(l[n - 1]->Some_0, b), compiled(l[n - 1]->Some_0, before(l, n - 1, w))->Some_0)) } else { built(l, n - 1, w, b) }
}
// every document up to the n-th entry can be compiled and has a name
pub open spec fn fine(l: Seq<Option<PathBuf>>, i: int, w: W) -> bool { document(l[i]) ==> stem(l[i]->Some_0) is Some && compiled(l[i]->Some_0, before(l, i, w)) is Some }
#[verifier::opaque] pub open spec fn all_fine(l: Seq<Option<PathBuf>>, n: int, w: W) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] fine(l, i, w) }
pub proof fn lemma_fine(l: Seq<Option<PathBuf>>, n: int, w: W) requires all_fine(l, n, w), fine(l, n, w) ensures all_fine(l, n + 1, w) { reveal(all_fine); }
// an entry that cannot be read or named
pub open spec fn unnamed(e: Option<PathBuf>) -> bool { match e { Some(p) => stem(p) is None || name(p) is None, None => true } }
pub open spec fn stray(l: Seq<Option<PathBuf>>) -> bool { exists|i: int| 0 <= i < l.len() && unnamed(#[trigger] l[i]) }
pub open spec fn docs(io: VIo) -> Seq<Option<PathBuf>> { listing("docs"@, writes(io)) }
// a build that ended well: every document, in the order of the folder, and nothing else
pub open spec fn built_all(p: Project, a: VIo, b: VIo) -> bool {
  exists|w: W| #[trigger] start(p, w) && all_fine(docs(a), docs(a).len() as int, w) && writes(b) =~= writes(a) + built(docs(a), docs(a).len() as int, w, p.config.document.backend@)
}
// a reason for a build to fail
pub open spec fn cannot(p: Project, a: VIo, b: VIo) -> bool {
  failed(b) || broken_project(p) || stray(docs(a)) || stray(listing("out"@, writes(b))) || faulty(p, docs(a))
}
// a document without a name, or one that cannot be compiled
pub open spec fn faulty(p: Project, l: Seq<Option<PathBuf>>) -> bool { exists|w: W, i: int| #[trigger] start(p, w) && 0 <= i < l.len() && !#[trigger] fine(l, i, w) }
@fn brack_project_manager::project::Project::build io
  ensures match r { Ok(_) => built_all(*$0, *old(vx_io), *final(vx_io)), Err(_) => cannot(*$0, *old(vx_io), *final(vx_io)) }
@hook before loop 0
  proof { reveal(all_loaded); }
@loop 0
  invariant vx_i0 <= vx_s0.entries().len(), vx_s0 == $0.plugins_metadata, all_loaded(*$0, plugin_vec@, vx_i0 as int), *vx_io == *old(vx_io)
  decreases vx_s0.entries().len() - vx_i0
@hook loop 0 item
  let ghost vx_v = plugin_vec@;
  proof { $0.plugins_metadata.lemma_entries(); reveal(all_loaded); let k = vx_s0.entries()[vx_i0 - 1].0.key(); assert($0.plugins_metadata.m().contains_key(k)); assert(starts(*$0, k) == starts(*$0, k)); }
@hook loop 0 end
  proof { let q = plugin_vec@[vx_v.len() as int]; assert(plugin_vec@ =~= vx_v.push(q)); lemma_load(*$0, vx_v, q); }
@hook after loop 0
  proof {
    let v = plugin_vec@;
    if nclaims(v, v.len(), Hk::Document) > 1 { lemma_clash(*$0, v, Hk::Document); } if nclaims(v, v.len(), Hk::Stmt) > 1 { lemma_clash(*$0, v, Hk::Stmt); }
    if nclaims(v, v.len(), Hk::Expr) > 1 { lemma_clash(*$0, v, Hk::Expr); } if nclaims(v, v.len(), Hk::Text) > 1 { lemma_clash(*$0, v, Hk::Text); }
  }
  let ghost vx_loaded = plugin_vec@;
@hook before loop 1
  let ghost w0 = world(plugins);
  let ghost l = docs(*old(vx_io));
  let ghost b = $0.config.document.backend@;
  proof { lemma_registry(*$0, vx_loaded, plugins.name_to_plugin); assert(start(*$0, w0)); reveal(all_fine); assert(writes(*vx_io) =~= writes(*old(vx_io)) + built(l, 0, w0, b)); }
@loop 1
  invariant vx_i1 <= l.len(), l == in_dir(vx_s1), l == docs(*old(vx_io)), all_text(l), start(*$0, w0), b == $0.config.document.backend@, world(plugins) == before(l, vx_i1 as int, w0), all_fine(l, vx_i1 as int, w0), writes(*vx_io) == writes(*old(vx_io)) + built(l, vx_i1 as int, w0, b)
  decreases l.len() - vx_i1
@hook loop 1 item
  proof { let i = vx_i1 - 1; assert(fine(l, i, w0) || !fine(l, i, w0)); assert(unnamed(l[i]) || !unnamed(l[i])); if document(l[i]) { assert(start(*$0, w0)); } assert(fine(l, i, w0) || faulty(*$0, l)); }
  let ghost vx_w = writes(*vx_io);
@hook loop 1 end
  proof { let i = vx_i1 - 1; assert(fine(l, i, w0)); lemma_fine(l, i, w0); if document(l[i]) { let st = stem(l[i]->Some_0)->Some_0; lemma_joined(st, b); assert(writes(*vx_io) =~= writes(*old(vx_io)) + built(l, vx_i1 as int, w0, b)); } else { assert(writes(*vx_io) == vx_w); } }
@hook before loop 2
  let ghost m = listing("out"@, writes(*vx_io));
@loop 2
  invariant vx_i2 <= m.len(), m == in_dir(vx_s2), m == listing("out"@, writes(*vx_io)), built_all(*$0, *old(vx_io), *vx_io)
  decreases m.len() - vx_i2
@hook loop 2 item
  proof { assert(unnamed(m[vx_i2 - 1]) || !unnamed(m[vx_i2 - 1])); }
