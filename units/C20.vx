@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@crate brack_plugin /repo/crates/brack-plugin/src/lib.rs
@crate brack_project_manager /repo/crates/brack-project-manager/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/hashmap.rs
@include ../lib/path.rs
@include ../lib/host.rs
@include ../lib/fsread.rs
@include ../lib/json.rs
@include ../lib/maps.rs
@include ../lib/serde.rs
@rename as_str vas_str
@by-hand Document:Default
@prelude
use crate::brack_project_manager::plugin::PluginSchema;
use crate::brack_project_manager::plugin::PluginVisitor;
// the fields of a plugin's entry
pub enum K { Schema, Owner, Repo, Version, Expr, Stmt, Document, Text }
#[verifier::opaque] pub open spec fn kn(k: K) -> Seq<char> { match k { K::Schema => "schema"@, K::Owner => "owner"@, K::Repo => "repo"@, K::Version => "version"@, K::Expr => "expr_hook"@, K::Stmt => "stmt_hook"@, K::Document => "document_hook"@, K::Text => "text_hook"@ } }
#[verifier::opaque] pub open spec fn kk(s: Seq<char>) -> Option<K> {
  if s == "schema"@ { Some(K::Schema) } else if s == "owner"@ { Some(K::Owner) } else if s == "repo"@ { Some(K::Repo) } else if s == "version"@ { Some(K::Version) }
  else if s == "expr_hook"@ { Some(K::Expr) } else if s == "stmt_hook"@ { Some(K::Stmt) } else if s == "document_hook"@ { Some(K::Document) } else if s == "text_hook"@ { Some(K::Text) } else { None }
}
pub proof fn lemma_names()
  ensures kn(K::Schema) == "schema"@, kn(K::Owner) == "owner"@, kn(K::Repo) == "repo"@, kn(K::Version) == "version"@, kn(K::Expr) == "expr_hook"@, kn(K::Stmt) == "stmt_hook"@, kn(K::Document) == "document_hook"@, kn(K::Text) == "text_hook"@,
    forall|a: K| #[trigger] kk(kn(a)) == Some(a), forall|s: Seq<char>| #[trigger] kk(s) is Some ==> kn(kk(s)->Some_0) == s
{ reveal(kn); reveal(kk);
  reveal_strlit("schema"); reveal_strlit("owner"); reveal_strlit("repo"); reveal_strlit("version"); reveal_strlit("expr_hook"); reveal_strlit("stmt_hook"); reveal_strlit("document_hook"); reveal_strlit("text_hook");
  assert("schema"@.len() == 6 && "owner"@.len() == 5 && "repo"@.len() == 4 && "version"@.len() == 7 && "expr_hook"@.len() == 9 && "stmt_hook"@.len() == 9 && "text_hook"@.len() == 9 && "document_hook"@.len() == 13);
  assert("expr_hook"@[0] == 'e' && "stmt_hook"@[0] == 's' && "text_hook"@[0] == 't');
  assert forall|a: K| #[trigger] kk(kn(a)) == Some(a) by { match a { K::Schema => {}, K::Owner => {}, K::Repo => {}, K::Version => {}, K::Expr => {}, K::Stmt => {}, K::Document => {}, K::Text => {} } }
}
pub open spec fn unknown(f: Seq<F>) -> bool { exists|i: int| 0 <= i < f.len() && kk((#[trigger] f[i]).key) is None }
#[verifier::opaque] pub open spec fn known(f: Seq<F>) -> bool { !unknown(f) }
pub broadcast proof fn lemma_known(f: Seq<F>, x: F) ensures #![trigger known(f.push(x))] known(f) && kk(x.key) is Some ==> known(f.push(x))
{ reveal(known); let g = f.push(x); if known(f) && kk(x.key) is Some && unknown(g) { let i = choose|i: int| 0 <= i < g.len() && kk((#[trigger] g[i]).key) is None; if i < f.len() { assert(f[i] == g[i]); } } }
broadcast use {lemma_known};
pub open spec fn words(f: Seq<F>, k: K) -> bool { at(f, kn(k)) is Some && at(f, kn(k))->Some_0 is Str }
pub open spec fn switch(f: Seq<F>, k: K) -> bool { at(f, kn(k)) is None || at(f, kn(k))->Some_0 is Bool }
// an entry: every field known and given once, the four texts given, each hook set, unset or absent
pub open spec fn fits(f: Seq<F>) -> bool {
  once(f) && known(f) && words(f, K::Owner) && words(f, K::Repo) && words(f, K::Version) && at(f, kn(K::Schema)) == Some(J::Str("github"@))
  && switch(f, K::Expr) && switch(f, K::Stmt) && switch(f, K::Document) && switch(f, K::Text)
}
pub open spec fn oj(o: Option<bool>) -> Option<J> { match o { Some(b) => Some(J::Bool(b)), None => None } }
// these fields say this plugin
pub open spec fn says(f: Seq<F>, p: PluginSchema) -> bool {
  &&& once(f) && known(f)
  &&& match p { PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook } => {
    &&& at(f, kn(K::Schema)) == Some(J::Str("github"@)) && at(f, kn(K::Owner)) == Some(J::Str(owner@)) && at(f, kn(K::Repo)) == Some(J::Str(repo@)) && at(f, kn(K::Version)) == Some(J::Str(version@))
    &&& at(f, kn(K::Expr)) == oj(expr_hook) && at(f, kn(K::Stmt)) == oj(stmt_hook) && at(f, kn(K::Document)) == oj(document_hook) && at(f, kn(K::Text)) == oj(text_hook)
  } }
}
// what was read of the first n fields
pub open spec fn text_at(o: Option<String>, f: Seq<F>, n: int, k: K) -> bool { look(f, n, kn(k)) == (match o { Some(s) => Some(J::Str(s@)), None => None }) }
pub open spec fn flag_at(o: Option<bool>, f: Seq<F>, n: int, k: K) -> bool { look(f, n, kn(k)) == oj(o) }
#[verifier::opaque] pub open spec fn apart_to(f: Seq<F>, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] f[i]).key != (#[trigger] f[j]).key }
pub proof fn lemma_step(f: Seq<F>, n: int) requires 0 <= n < f.len() ensures apart_to(f, n) && look(f, n, f[n].key) is None ==> apart_to(f, n + 1), known_to(f, n) && kk(f[n].key) is Some ==> known_to(f, n + 1), known(f) ==> kk(f[n].key) is Some
{ reveal(apart_to); reveal(known_to); reveal(known); if apart_to(f, n) && look(f, n, f[n].key) is None { assert forall|i: int, j: int| 0 <= i < j < n + 1 implies (#[trigger] f[i]).key != (#[trigger] f[j]).key by { if j == n { lemma_absent(f, n, f[n].key, i); } } } }
#[verifier::opaque] pub open spec fn known_to(f: Seq<F>, n: int) -> bool { forall|i: int| 0 <= i < n ==> kk((#[trigger] f[i]).key) is Some }
pub proof fn lemma_start(f: Seq<F>) ensures apart_to(f, 0), known_to(f, 0) { reveal(apart_to); reveal(known_to); }
pub proof fn lemma_end(f: Seq<F>) ensures apart_to(f, f.len() as int) ==> once(f), known_to(f, f.len() as int) ==> known(f), forall|k: Seq<char>| #[trigger] look(f, f.len() as int, k) == at(f, k) { reveal(apart_to); reveal(known_to); reveal(known); reveal(once); reveal(at); }
// the round trip: what is written says the plugin, and only one plugin is said by it
pub proof fn lemma_round(f: Seq<F>, p: PluginSchema, q: PluginSchema) requires says(f, p) ensures fits(f), says(f, q) ==> p == q
{ let PluginSchema::GitHub { owner: a, repo: b, version: c, expr_hook: x, stmt_hook: y, document_hook: z, text_hook: t } = p; let PluginSchema::GitHub { owner: a2, repo: b2, version: c2, expr_hook: x2, stmt_hook: y2, document_hook: z2, text_hook: t2 } = q;
  if says(f, q) { axiom_string_ext(a, a2); axiom_string_ext(b, b2); axiom_string_ext(c, c2); assert(J::Str(a@) == J::Str(a2@) && J::Str(b@) == J::Str(b2@) && J::Str(c@) == J::Str(c2@)); assert(a@ == a2@ && b@ == b2@ && c@ == c2@); assert(a == a2 && b == b2 && c == c2); assert(oj(x) == oj(x2) && oj(y) == oj(y2) && oj(z) == oj(z2) && oj(t) == oj(t2)); assert(x == x2 && y == y2 && z == z2 && t == t2); } }
impl Builds for PluginVisitor { type Value = PluginSchema; open spec fn fits(f: Seq<F>) -> bool { fits(f) } open spec fn builds(f: Seq<F>, v: PluginSchema) -> bool { says(f, v) } }
@fn brack_project_manager::plugin::PluginSchema::serialize
  ensures match r { Ok(o) => says(S::SerializeStruct::written(o), *$0), Err(_) => $1.flawed() }
@hook entry
  proof { lemma_none(); lemma_names(); assert(known(Seq::empty())) by { reveal(known); } }
@fn brack_project_manager::plugin::PluginVisitor::visit_map attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
  ensures match r { Ok(p) => says($1.rest(), p), Err(_) => $1.flawed() || !fits($1.rest()) }
@hook before loop 0
  let ghost f = $1.rest();
  let ghost whole = f;
  let ghost bad = $1.flawed();
  let ghost mut n = 0int;
  proof { lemma_names(); assert(f.skip(0) =~= f); lemma_start(f); lemma_end(f); }
@loop 0
  invariant
    f == whole, 0 <= n <= f.len(), map.rest() == f.skip(n), map.flawed() == bad,
    text_at(schema, f, n, K::Schema), text_at(owner, f, n, K::Owner), text_at(repo, f, n, K::Repo), text_at(version, f, n, K::Version),
    flag_at(expr_hook, f, n, K::Expr), flag_at(stmt_hook, f, n, K::Stmt), flag_at(document_hook, f, n, K::Document), flag_at(text_hook, f, n, K::Text),
    known_to(f, n), apart_to(f, n),
  ensures n == f.len()
  decreases map.rest().len()
@hook arm 0 0
  proof { assert(f.skip(n)[0] == f[n]); assert(f.skip(n).skip(1) =~= f.skip(n + 1)); lemma_next(f, n); lemma_step(f, n); n = n + 1; }
@fn brack_project_manager::plugin::PluginSchema::deserialize
  ensures match r { Ok(p) => $0.given() matches Some(f) && says(f, p), Err(_) => $0.flawed() || ($0.given() matches Some(f) ==> !fits(f)) }
