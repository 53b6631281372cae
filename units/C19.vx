@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@crate brack_language_server /repo/crates/brack-language-server/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/loadfns.vx
@include ../lib/lsfns.vx
@include ../lib/maps.rs
@include ../lib/project.rs
@rename values vvalues
@by-hand Document:Default PluginSchema:Serialize PluginSchema:Deserialize
@prelude
// the project's plugins have a command n.c of this kind
pub open spec fn has_command(p: Project, n: Seq<char>, c: Seq<char>, t: Type) -> bool { p.plugins_metadata.m().contains_key(n) && exists|i: int| 0 <= i < cmds(p, n).len() && #[trigger] mk(cmds(p, n), i) == (c, t) }
// the kind of command the trigger opens
pub open spec fn opened(s: Seq<char>) -> Option<Type> { if s == "["@ { Some(Type::TInline) } else if s == "{"@ { Some(Type::TBlock) } else if s == "<"@ { Some(Type::TAST) } else { None } }
pub open spec fn closes(t: Type) -> Seq<char> { match t { Type::TInline => " $0]"@, Type::TBlock => " $0}"@, _ => " $0>"@ } }
pub open spec fn offers(x: CompletionItem, k: (Seq<char>, Seq<char>), t: Type) -> bool {
  x.label@ =~= k.0 + "."@ + k.1 && (x.insert_text matches Some(s) && s@ =~= k.0 + "."@ + k.1 + closes(t)) && x.insert_text_format == Some(InsertTextFormat::SNIPPET) && x.more == plain()
}
#[verifier::opaque] pub open spec fn offered(v: Seq<CompletionItem>, ks: Seq<(Seq<char>, Seq<char>)>, o: Option<Type>) -> bool { v.len() == ks.len() && forall|i: int| 0 <= i < v.len() ==> o is Some && offers(#[trigger] v[i], ks[i], o->Some_0) }
pub proof fn lemma_offered(v: Seq<CompletionItem>, ks: Seq<(Seq<char>, Seq<char>)>, o: Option<Type>, x: CompletionItem, k: (Seq<char>, Seq<char>))
  requires offered(v, ks, o), o is Some, offers(x, k, o->Some_0) ensures offered(v.push(x), ks.push(k), o)
{ reveal(offered); assert forall|i: int| 0 <= i < v.len() + 1 implies o is Some && offers(#[trigger] v.push(x)[i], ks.push(k)[i], o->Some_0) by { if i < v.len() { assert(v.push(x)[i] == v[i]); } } }
// none missing, none of another kind, none twice
pub open spec fn offer(p: Project, v: Seq<CompletionItem>, o: Option<Type>) -> bool {
  exists|ks: Seq<(Seq<char>, Seq<char>)>| #[trigger] offered(v, ks, o) && ks.no_duplicates() && (forall|k: (Seq<char>, Seq<char>)| #[trigger] ks.contains(k) <==> o is Some && has_command(p, k.0, k.1, o->Some_0))
}
// what walking the registry yields
pub open spec fn tab(q: Plugin) -> Seq<((String, Type), Metadata)> { q.signature_to_metadata.entries() }
pub open spec fn inner(q: Plugin, o: Option<Type>, j: int) -> Seq<(Seq<char>, Seq<char>)> decreases j {
  if j <= 0 || j > tab(q).len() { Seq::empty() } else { let r = inner(q, o, j - 1); if o == Some(tab(q)[j - 1].0.1) { r.push((q.name@, tab(q)[j - 1].0.0@)) } else { r } }
}
pub open spec fn outer(e: Seq<(String, Plugin)>, o: Option<Type>, i: int) -> Seq<(Seq<char>, Seq<char>)> decreases i {
  if i <= 0 || i > e.len() { Seq::empty() } else { outer(e, o, i - 1) + inner(e[i - 1].1, o, tab(e[i - 1].1).len() as int) }
}
pub open spec fn in_table(q: Plugin, c: Seq<char>, t: Type) -> bool { q.signature_to_metadata.m().contains_key((c, t)) }
pub proof fn lemma_inner(q: Plugin, o: Option<Type>, j: int)
  requires 0 <= j <= tab(q).len()
  ensures inner(q, o, j).no_duplicates(),
    forall|k: (Seq<char>, Seq<char>)| #[trigger] inner(q, o, j).contains(k) ==> k.0 == q.name@ && o is Some && exists|b: int| 0 <= b < j && (#[trigger] tab(q)[b]).0.0@ == k.1 && tab(q)[b].0.1 == o->Some_0,
    forall|b: int| 0 <= b < j && o == Some((#[trigger] tab(q)[b]).0.1) ==> inner(q, o, j).contains((q.name@, tab(q)[b].0.0@)),
  decreases j
{
  if j > 0 {
    lemma_inner(q, o, j - 1);
    let r = inner(q, o, j - 1); let x = (q.name@, tab(q)[j - 1].0.0@); let s = inner(q, o, j);
    q.signature_to_metadata.lemma_entries();
    if o == Some(tab(q)[j - 1].0.1) {
      assert(!r.contains(x)) by { if r.contains(x) { let b = choose|b: int| 0 <= b < j - 1 && (#[trigger] tab(q)[b]).0.0@ == x.1 && tab(q)[b].0.1 == o->Some_0; assert(tab(q)[b].0.key() == tab(q)[j - 1].0.key()); } }
      assert(s == r.push(x));
      assert(s[s.len() - 1] == x);
      assert forall|k: (Seq<char>, Seq<char>)| r.contains(k) implies s.contains(k) by { let a = choose|a: int| 0 <= a < r.len() && r[a] == k; assert(s[a] == k); }
      assert forall|k: (Seq<char>, Seq<char>)| #[trigger] s.contains(k) implies k == x || r.contains(k) by { let a = choose|a: int| 0 <= a < s.len() && s[a] == k; if a < r.len() { assert(r[a] == k); } }
    }
  }
}
pub proof fn lemma_whole(q: Plugin, o: Option<Type>)
  ensures inner(q, o, tab(q).len() as int).no_duplicates(), forall|k: (Seq<char>, Seq<char>)| #[trigger] inner(q, o, tab(q).len() as int).contains(k) <==> k.0 == q.name@ && o is Some && in_table(q, k.1, o->Some_0)
{
  let n = tab(q).len() as int; lemma_inner(q, o, n); q.signature_to_metadata.lemma_entries();
  assert forall|k: (Seq<char>, Seq<char>)| #[trigger] inner(q, o, n).contains(k) <==> k.0 == q.name@ && o is Some && in_table(q, k.1, o->Some_0) by {
    if inner(q, o, n).contains(k) { let b = choose|b: int| 0 <= b < n && (#[trigger] tab(q)[b]).0.0@ == k.1 && tab(q)[b].0.1 == o->Some_0; assert(tab(q)[b].0.key() == (k.1, o->Some_0)); }
    if k.0 == q.name@ && o is Some && in_table(q, k.1, o->Some_0) { let b = q.signature_to_metadata.lemma_at((k.1, o->Some_0)); assert(tab(q)[b].0.1 == o->Some_0); }
  }
}
pub proof fn lemma_outer(e: Seq<(String, Plugin)>, o: Option<Type>, i: int)
  requires 0 <= i <= e.len(), keyed(e), apart(e)
  ensures outer(e, o, i).no_duplicates(),
    forall|k: (Seq<char>, Seq<char>)| #[trigger] outer(e, o, i).contains(k) ==> o is Some && exists|a: int| 0 <= a < i && (#[trigger] e[a]).0@ == k.0 && in_table(e[a].1, k.1, o->Some_0),
    forall|a: int, c: Seq<char>| 0 <= a < i && o is Some && #[trigger] in_table(e[a].1, c, o->Some_0) ==> outer(e, o, i).contains((e[a].0@, c)),
  decreases i
{
  if i > 0 {
    lemma_outer(e, o, i - 1);
    let q = e[i - 1].1; lemma_whole(q, o);
    let r = outer(e, o, i - 1); let x = inner(q, o, tab(q).len() as int); let s = outer(e, o, i);
    assert(s == r + x);
    assert forall|k: (Seq<char>, Seq<char>)| r.contains(k) implies s.contains(k) by { let a = choose|a: int| 0 <= a < r.len() && r[a] == k; assert(s[a] == k); }
    assert forall|k: (Seq<char>, Seq<char>)| x.contains(k) implies s.contains(k) && !r.contains(k) by {
      let a = choose|a: int| 0 <= a < x.len() && x[a] == k; assert(s[r.len() + a] == k);
      if r.contains(k) { let b = choose|b: int| 0 <= b < i - 1 && (#[trigger] e[b]).0@ == k.0 && in_table(e[b].1, k.1, o->Some_0); assert(e[b].0@ == e[i - 1].0@); }
    }
    assert forall|k: (Seq<char>, Seq<char>)| #[trigger] s.contains(k) implies x.contains(k) || r.contains(k) by { let a = choose|a: int| 0 <= a < s.len() && s[a] == k; if a < r.len() { assert(r[a] == k); } else { assert(x[a - r.len()] == k); } }
    assert(s.no_duplicates()) by {
      assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
        if a < r.len() && b < r.len() { assert(r[a] != r[b]); } else if a >= r.len() && b >= r.len() { assert(x[a - r.len()] != x[b - r.len()]); }
        else if a < r.len() { assert(r.contains(r[a])); assert(x.contains(x[b - r.len()])); } else { assert(r.contains(r[b])); assert(x.contains(x[a - r.len()])); }
      }
    }
  }
}
pub proof fn lemma_all(p: Project, t: HashMap<String, Plugin>, v: Seq<CompletionItem>, o: Option<Type>)
  requires registry(p, t), offered(v, outer(t.entries(), o, t.entries().len() as int), o) ensures offer(p, v, o)
{
  let e = t.entries(); let ks = outer(e, o, e.len() as int);
  lemma_outer(e, o, e.len() as int); t.lemma_entries();
  assert forall|k: (Seq<char>, Seq<char>)| #[trigger] ks.contains(k) <==> o is Some && has_command(p, k.0, k.1, o->Some_0) by {
    if o is Some {
      let ty = o->Some_0;
      if ks.contains(k) {
        let a = choose|a: int| 0 <= a < e.len() && (#[trigger] e[a]).0@ == k.0 && in_table(e[a].1, k.1, ty);
        assert(t.m().contains_key(e[a].0.key())); assert(loaded(p, t.m()[k.0], k.0)); reveal(table);
        let i = choose|i: int| 0 <= i < cmds(p, k.0).len() && (k.1, ty) == #[trigger] mk(cmds(p, k.0), i); assert(mk(cmds(p, k.0), i) == (k.1, ty));
      }
      if has_command(p, k.0, k.1, ty) {
        assert(t.m().contains_key(k.0)); assert(loaded(p, t.m()[k.0], k.0)); reveal(table);
        let a = t.lemma_at(k.0); assert(in_table(e[a].1, k.1, ty));
      }
    } else { if ks.contains(k) { } }
  }
}
pub proof fn lemma_brackets() ensures "["@ != "{"@, "["@ != "<"@, "{"@ != "<"@ { reveal_strlit("["); reveal_strlit("{"); reveal_strlit("<"); assert("["@[0] == '[' && "{"@[0] == '{' && "<"@[0] == '<'); }
@fn brack_language_server::request::completion::build_completion_item
  requires *$2 is TInline || *$2 is TBlock || *$2 is TAST
  ensures offers(r, ($0@, $1@), *$2)
@fn brack_language_server::request::completion::Server::handle_completion
  ensures
    $0.project is None ==> r matches Ok(None),
    $0.project matches Some(p) ==> match r {
      Ok(Some(a)) => ($1.context matches Some(c) && c.trigger_character is Some) && (a matches CompletionResponse::Array(v) && offer(p, v@, opened($1.context->Some_0.trigger_character->Some_0@))),
      Ok(None) => $1.context matches Some(c) && c.trigger_character is None,
      Err(_) => $1.context is None || broken_project(p),
    },
@hook before loop 0
  proof { reveal(all_loaded); }
@loop 0
  invariant vx_i0 <= vx_s0.entries().len(), $0.project == Some(*project), *vx_s0 == project.plugins_metadata, all_loaded(*project, plugin_vec@, vx_i0 as int), completion_items@.len() == 0
  decreases vx_s0.entries().len() - vx_i0
@hook loop 0 item
  let ghost vx_v = plugin_vec@;
  proof { project.plugins_metadata.lemma_entries(); reveal(all_loaded); let k = vx_s0.entries()[vx_i0 - 1].0.key(); assert(project.plugins_metadata.m().contains_key(k)); }
@hook loop 0 end
  proof { let q = plugin_vec@[vx_v.len() as int]; assert(plugin_vec@ =~= vx_v.push(q)); lemma_load(*project, vx_v, q); }
@hook after loop 0
  proof {
    let v = plugin_vec@;
    if nclaims(v, v.len(), Hk::Document) > 1 { lemma_clash(*project, v, Hk::Document); } if nclaims(v, v.len(), Hk::Stmt) > 1 { lemma_clash(*project, v, Hk::Stmt); }
    if nclaims(v, v.len(), Hk::Expr) > 1 { lemma_clash(*project, v, Hk::Expr); } if nclaims(v, v.len(), Hk::Text) > 1 { lemma_clash(*project, v, Hk::Text); }
  }
  let ghost vx_loaded = plugin_vec@;
@hook before loop 1
  let ghost vx_ks = Seq::<(Seq<char>, Seq<char>)>::empty();
  proof { reveal(offered); lemma_registry(*project, vx_loaded, plugins.name_to_plugin); lemma_brackets(); }
@loop 1
  invariant vx_i1 <= vx_s1.0.entries().len(), *vx_s1.0 == plugins.name_to_plugin, registry(*project, plugins.name_to_plugin), offered(completion_items@, outer(vx_s1.0.entries(), opened(start@), vx_i1 as int), opened(start@))
  decreases vx_s1.0.entries().len() - vx_i1
@hook loop 1 item
  proof { assert(outer(vx_s1.0.entries(), opened(start@), vx_i1 - 1) + inner(*plugin, opened(start@), 0) =~= outer(vx_s1.0.entries(), opened(start@), vx_i1 - 1)); }
@loop 2
  invariant vx_i2 <= vx_s2.entries().len(), *vx_s2 == plugin.signature_to_metadata, 0 < vx_i1 <= vx_s1.0.entries().len(), *plugin == vx_s1.0.entries()[vx_i1 - 1].1,
    offered(completion_items@, outer(vx_s1.0.entries(), opened(start@), vx_i1 - 1) + inner(*plugin, opened(start@), vx_i2 as int), opened(start@))
  decreases vx_s2.entries().len() - vx_i2
@hook loop 2 item
  let ghost vx_v = completion_items@;
  let ghost vx_k = outer(vx_s1.0.entries(), opened(start@), vx_i1 - 1) + inner(*plugin, opened(start@), vx_i2 - 1);
@hook loop 2 end
  proof {
    let o = opened(start@); let k2 = outer(vx_s1.0.entries(), o, vx_i1 - 1) + inner(*plugin, o, vx_i2 as int);
    let e = vx_s2.entries()[vx_i2 - 1].0; if o == Some(e.1) { let k = (plugin.name@, e.0@); assert(k2 =~= vx_k.push(k)); let x = completion_items@[vx_v.len() as int]; assert(completion_items@ =~= vx_v.push(x)); lemma_offered(vx_v, vx_k, o, x, k); } else { assert(k2 == vx_k); }
  }
@hook tail
  proof { lemma_all(*project, plugins.name_to_plugin, completion_items@, opened(start@)); }
@prelude
pub open spec fn reply(t: Seq<char>, id: J) -> Option<J> { if member(untext(t), "id"@) == Some(id) { member(untext(t), "result"@) } else { None } }
pub open spec fn asked<T>(m: J) -> Option<T> { params_of::<T>(match member(m, "params"@) { Some(j) => j, None => J::Null }) }
// what the answer to a completion request says: the offer, or nothing where no trigger or no project is given
pub open spec fn completes(p: Option<Project>, q: CompletionParams, j: J) -> bool {
  match p {
    None => j == J::Null,
    Some(p) => match q.context { Some(c) => match c.trigger_character { Some(s) => exists|v: Vec<CompletionItem>| j == js_completion(CompletionResponse::Array(v)) && #[trigger] offer(p, v@, opened(s@)), None => j == J::Null }, None => false },
  }
}
@fn brack_language_server::request::semantic_tokens::Server::handle_semantic_tokens_full io external
  ensures noted(*old(vx_io), *final(vx_io))
@fn brack_language_server::request::Server::handle_request io
  ensures
    kept(*old(vx_io), *final(vx_io)),
    $3@ == "textDocument/completion"@ && r is Ok && !broken(*final(vx_io)) ==> (asked::<CompletionParams>(jv(*$1)) matches Some(p) ==>
      if old($0).project matches Some(q) && (p.context is None || broken_project(q)) { true } else { sent(*final(vx_io)).len() > 0 && (reply(sent(*final(vx_io)).last(), jv(*$2)) matches Some(j) && completes(old($0).project, p, j)) }),
