// The plugins of a project, loaded.
use crate::brack_project_manager::project::Project;
impl AsRef<Path> for PathBuf { }
impl<'a> AsRef<Path> for &'a PathBuf { }
pub broadcast axiom fn axiom_content(p: PathBuf) ensures #![trigger content(p)] content(&p) == content(p);
broadcast use {axiom_content};
// what the project says of a plugin, and what the plugin says of its commands
pub open spec fn file(p: Project, n: Seq<char>) -> Option<Seq<u8>> { content(&p.plugins_metadata.m()[n].0) }
pub open spec fn cmds(p: Project, n: Seq<char>) -> Seq<Metadata> { metas(file(p, n)->Some_0)->Some_0 }
pub open spec fn starts(p: Project, n: Seq<char>) -> bool { file(p, n) is Some && is_plugin(file(p, n)->Some_0) && metas(file(p, n)->Some_0) is Some && loads(cmds(p, n), p.plugins_metadata.m()[n].1) }
// the registry keeps every plugin under its name
pub open spec fn keyed(e: Seq<(String, Plugin)>) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0@ == e[i].1.name@ }
pub open spec fn apart(e: Seq<(String, Plugin)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@ }
// the plugins loaded for the project, one for every entry
pub open spec fn loaded(p: Project, q: Plugin, n: Seq<char>) -> bool {
  q.name@ == n && starts(p, n) && table(cmds(p, n), cmds(p, n).len() as int, q.signature_to_metadata.m()) && q.feature_flag == p.plugins_metadata.m()[n].1
}
#[verifier::opaque] pub open spec fn all_loaded(p: Project, v: Seq<Plugin>, m: int) -> bool { v.len() == m && forall|i: int| 0 <= i < m ==> loaded(p, #[trigger] v[i], p.plugins_metadata.entries()[i].0@) }
pub proof fn lemma_load(p: Project, v: Seq<Plugin>, q: Plugin)
  requires all_loaded(p, v, v.len() as int), loaded(p, q, p.plugins_metadata.entries()[v.len() as int].0@) ensures all_loaded(p, v.push(q), v.len() as int + 1)
{ reveal(all_loaded); assert forall|i: int| 0 <= i < v.len() + 1 implies loaded(p, #[trigger] v.push(q)[i], p.plugins_metadata.entries()[i].0@) by { if i < v.len() { assert(v.push(q)[i] == v[i]); } } }
// two of the project's plugins claim the same hook
pub open spec fn flag(p: Project, n: Seq<char>) -> FeatureFlag { p.plugins_metadata.m()[n].1 }
pub open spec fn clash(p: Project, h: Hk) -> bool { exists|a: Seq<char>, b: Seq<char>| a != b && #[trigger] p.plugins_metadata.m().contains_key(a) && #[trigger] p.plugins_metadata.m().contains_key(b) && claims(flag(p, a), h) && claims(flag(p, b), h) }
pub proof fn lemma_two(v: Seq<Plugin>, m: nat, h: Hk) requires m <= v.len(), nclaims(v, m, h) > 1 ensures exists|i: int, j: int| 0 <= i < j < m && claims((#[trigger] v[i]).feature_flag, h) && claims((#[trigger] v[j]).feature_flag, h) decreases m
{ if claims(v[m - 1].feature_flag, h) { let i = lemma_one(v, (m - 1) as nat, h); assert(claims(v[i].feature_flag, h) && claims(v[m - 1].feature_flag, h)); } else { lemma_two(v, (m - 1) as nat, h); } }
pub proof fn lemma_one(v: Seq<Plugin>, m: nat, h: Hk) -> (i: int) requires m <= v.len(), nclaims(v, m, h) > 0 ensures 0 <= i < m, claims(v[i].feature_flag, h) decreases m { if claims(v[m - 1].feature_flag, h) { m - 1 } else { lemma_one(v, (m - 1) as nat, h) } }
pub proof fn lemma_clash(p: Project, v: Seq<Plugin>, h: Hk)
  requires all_loaded(p, v, p.plugins_metadata.entries().len() as int), nclaims(v, v.len(), h) > 1 ensures clash(p, h)
{
  reveal(all_loaded); p.plugins_metadata.lemma_entries(); lemma_two(v, v.len(), h);
  let (i, j) = choose|i: int, j: int| 0 <= i < j < v.len() && claims((#[trigger] v[i]).feature_flag, h) && claims((#[trigger] v[j]).feature_flag, h);
  let e = p.plugins_metadata.entries();
  assert(loaded(p, v[i], e[i].0@) && loaded(p, v[j], e[j].0@)); assert(e[i].0.key() != e[j].0.key());
  assert(p.plugins_metadata.m().contains_key(e[i].0@) && p.plugins_metadata.m().contains_key(e[j].0@));
}
pub open spec fn broken_project(p: Project) -> bool { (exists|n: Seq<char>| #[trigger] p.plugins_metadata.m().contains_key(n) && !starts(p, n)) || clash(p, Hk::Document) || clash(p, Hk::Stmt) || clash(p, Hk::Expr) || clash(p, Hk::Text) }
// the registry holds the project's plugins and nothing else
pub open spec fn registry(p: Project, t: HashMap<String, Plugin>) -> bool {
  keyed(t.entries()) && apart(t.entries()) && forall|n: Seq<char>| (#[trigger] t.m().contains_key(n) <==> p.plugins_metadata.m().contains_key(n)) && (t.m().contains_key(n) ==> loaded(p, t.m()[n], n))
}
pub proof fn lemma_registry(p: Project, v: Seq<Plugin>, t: HashMap<String, Plugin>)
  requires all_loaded(p, v, p.plugins_metadata.entries().len() as int), registered(v, v.len() as int, t.m()) ensures registry(p, t)
{
  reveal(all_loaded); reveal(registered); reveal(named_apart); p.plugins_metadata.lemma_entries(); t.lemma_entries();
  let e = p.plugins_metadata.entries();
  assert(named_apart(v)) by { assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] pn(v, i) != #[trigger] pn(v, j) by { assert(loaded(p, v[i], e[i].0@) && loaded(p, v[j], e[j].0@)); assert(e[i].0.key() != e[j].0.key()); } }
  assert forall|n: Seq<char>| (#[trigger] t.m().contains_key(n) <==> p.plugins_metadata.m().contains_key(n)) && (t.m().contains_key(n) ==> loaded(p, t.m()[n], n)) by {
    if t.m().contains_key(n) { let i = choose|i: int| 0 <= i < v.len() && n == #[trigger] pn(v, i) && (named_apart(v) ==> t.m()[n] == v[i]); assert(loaded(p, v[i], e[i].0@)); assert(e[i].0.key() == n); }
    if p.plugins_metadata.m().contains_key(n) { let i = p.plugins_metadata.lemma_at(n); assert(loaded(p, v[i], e[i].0@)); assert(pn(v, i) == n); }
  }
  let f = t.entries();
  assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).0@ == f[i].1.name@ by { assert(t.m().contains_key(f[i].0.key())); }
  assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0@ != (#[trigger] f[j]).0@ by { assert(f[i].0.key() != f[j].0.key()); }
}
