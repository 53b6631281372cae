@prelude
pub open spec fn metas(w: Seq<u8>) -> Option<Seq<Metadata>> { match answer::<Json<Vec<Metadata>>>(w, seq![Call { name: "get_metadata"@, input: In::Nothing }]) { Some(Json(v)) => Some(v@), None => None } }
pub open spec fn named(v: Seq<Metadata>, i: int, h: Hk) -> bool { v[i].command_name@ == hn(h) }
// among the first m commands: there is one of the hook's name; there is none of it that returns another kind
#[verifier::opaque] pub open spec fn listed(v: Seq<Metadata>, m: int, h: Hk) -> bool { exists|i: int| 0 <= i < m && #[trigger] named(v, i, h) }
#[verifier::opaque] pub open spec fn kind(v: Seq<Metadata>, m: int, h: Hk) -> bool { forall|i: int| 0 <= i < m && #[trigger] named(v, i, h) ==> v[i].return_type == ht(h) }
pub open spec fn fits(v: Seq<Metadata>, f: FeatureFlag, h: Hk) -> bool { claims(f, h) ==> listed(v, v.len() as int, h) && kind(v, v.len() as int, h) }
pub open spec fn loads(v: Seq<Metadata>, f: FeatureFlag) -> bool { fits(v, f, Hk::Document) && fits(v, f, Hk::Stmt) && fits(v, f, Hk::Expr) && fits(v, f, Hk::Text) }
pub proof fn lemma_named(v: Seq<Metadata>, i: int, h: Hk)
  requires 0 <= i < v.len()
  ensures !listed(v, 0, h), kind(v, 0, h), listed(v, i + 1, h) == (listed(v, i, h) || named(v, i, h)), kind(v, i + 1, h) == (kind(v, i, h) && (named(v, i, h) ==> v[i].return_type == ht(h))), !kind(v, i, h) ==> !kind(v, v.len() as int, h)
{ reveal(listed); reveal(kind); assert(named(v, i, h) == named(v, i, h)); }
pub open spec fn mk(v: Seq<Metadata>, i: int) -> (Seq<char>, Type) { (v[i].command_name@, v[i].return_type) }
// the table holds every command under its name and kind, and nothing else
#[verifier::opaque] pub open spec fn distinct(v: Seq<Metadata>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] mk(v, i) != #[trigger] mk(v, j) }
#[verifier::opaque] pub open spec fn table(v: Seq<Metadata>, m: int, t: Map<(Seq<char>, Type), Metadata>) -> bool {
  (forall|k: (Seq<char>, Type)| #[trigger] t.contains_key(k) ==> exists|i: int| 0 <= i < m && k == #[trigger] mk(v, i) && (distinct(v) ==> t[k] == v[i])) && (forall|i: int| 0 <= i < m ==> t.contains_key(#[trigger] mk(v, i)))
}
pub proof fn lemma_table(v: Seq<Metadata>, i: int, t: Map<(Seq<char>, Type), Metadata>)
  requires 0 <= i < v.len(), table(v, i, t)
  ensures table(v, i + 1, t.insert(mk(v, i), v[i]))
{
  reveal(table); reveal(distinct);
  let u = t.insert(mk(v, i), v[i]);
  assert forall|k: (Seq<char>, Type)| #[trigger] u.contains_key(k) implies exists|j: int| 0 <= j < i + 1 && k == #[trigger] mk(v, j) && (distinct(v) ==> u[k] == v[j]) by {
    if k == mk(v, i) { } else { let j = choose|j: int| 0 <= j < i && k == #[trigger] mk(v, j) && (distinct(v) ==> t[k] == v[j]); assert(mk(v, j) == k && j < i + 1); }
  }
}
@fn brack_plugin::plugin::Plugin::new
  ensures
    r is Ok <==> (content($1) is Some && is_plugin(content($1)->Some_0) && metas(content($1)->Some_0) is Some && loads(metas(content($1)->Some_0)->Some_0, $2)),
    r matches Ok(p) ==> p.name@ == $0@ && p.feature_flag == $2 && Some(pw(p).wasm) == content($1) && table(metas(pw(p).wasm)->Some_0, metas(pw(p).wasm)->Some_0.len() as int, pw(p).table) && pw(p).log == seq![Call { name: "get_metadata"@, input: In::Nothing }],
@hook after call call 0
  proof { reveal(table); let v = metadatas@; assert(log(extism_plugin) =~= seq![Call { name: "get_metadata"@, input: In::Nothing }]); assert(metas(wasm(extism_plugin)) == Some(v));
    if v.len() > 0 { lemma_named(v, 0, Hk::Document); lemma_named(v, 0, Hk::Stmt); lemma_named(v, 0, Hk::Expr); lemma_named(v, 0, Hk::Text); } else { reveal(listed); reveal(kind); } }
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), Some(wasm(extism_plugin)) == content($1), is_plugin(wasm(extism_plugin)), metas(wasm(extism_plugin)) == Some(vx_s0@), log(extism_plugin) == seq![Call { name: "get_metadata"@, input: In::Nothing }],
    table(vx_s0@, vx_i0 as int, signature_to_metadata.m()),
    exists_document_hook == (claims(feature_flag, Hk::Document) && listed(vx_s0@, vx_i0 as int, Hk::Document)), claims(feature_flag, Hk::Document) ==> kind(vx_s0@, vx_i0 as int, Hk::Document),
    exists_stmt_hook == (claims(feature_flag, Hk::Stmt) && listed(vx_s0@, vx_i0 as int, Hk::Stmt)), claims(feature_flag, Hk::Stmt) ==> kind(vx_s0@, vx_i0 as int, Hk::Stmt),
    exists_expr_hook == (claims(feature_flag, Hk::Expr) && listed(vx_s0@, vx_i0 as int, Hk::Expr)), claims(feature_flag, Hk::Expr) ==> kind(vx_s0@, vx_i0 as int, Hk::Expr),
    exists_text_hook == (claims(feature_flag, Hk::Text) && listed(vx_s0@, vx_i0 as int, Hk::Text)), claims(feature_flag, Hk::Text) ==> kind(vx_s0@, vx_i0 as int, Hk::Text),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
 
  proof { let v = vx_s0@; let i = vx_i0 - 1; lemma_table(v, i, signature_to_metadata.m()); lemma_named(v, i, Hk::Document); lemma_named(v, i, Hk::Stmt); lemma_named(v, i, Hk::Expr); lemma_named(v, i, Hk::Text);
    if i + 1 < v.len() { lemma_named(v, i + 1, Hk::Document); lemma_named(v, i + 1, Hk::Stmt); lemma_named(v, i + 1, Hk::Expr); lemma_named(v, i + 1, Hk::Text); } }
@prelude
pub open spec fn nclaims(v: Seq<Plugin>, m: nat, h: Hk) -> nat decreases m { if m == 0 || m > v.len() { 0 } else { nclaims(v, (m - 1) as nat, h) + if claims(v[m - 1].feature_flag, h) { 1nat } else { 0 } } }
pub open spec fn claimer(v: Seq<Plugin>, m: nat, h: Hk) -> Option<Seq<char>> decreases m { if m == 0 || m > v.len() { None } else if claims(v[m - 1].feature_flag, h) { Some(v[m - 1].name@) } else { claimer(v, (m - 1) as nat, h) } }
pub proof fn lemma_nclaims(v: Seq<Plugin>, m: nat, k: nat, h: Hk) requires m <= k <= v.len() ensures nclaims(v, m, h) <= nclaims(v, k, h) decreases k { if m < k { lemma_nclaims(v, m, (k - 1) as nat, h); } }
pub proof fn lemma_claims(v: Seq<Plugin>, m: nat, h: Hk) requires 0 < m <= v.len()
  ensures nclaims(v, m, h) == nclaims(v, (m - 1) as nat, h) + if claims(v[m - 1].feature_flag, h) { 1nat } else { 0 }, claimer(v, m, h) == (if claims(v[m - 1].feature_flag, h) { Some(v[m - 1].name@) } else { claimer(v, (m - 1) as nat, h) }), nclaims(v, m, h) <= nclaims(v, v.len(), h), (claimer(v, (m - 1) as nat, h) is None) == (nclaims(v, (m - 1) as nat, h) == 0)
{ lemma_nclaims(v, m, v.len(), h); lemma_claimer(v, (m - 1) as nat, h); }
pub proof fn lemma_claimer(v: Seq<Plugin>, m: nat, h: Hk) requires m <= v.len() ensures (claimer(v, m, h) is None) == (nclaims(v, m, h) == 0) decreases m { if m > 0 { lemma_claimer(v, (m - 1) as nat, h); } }
pub open spec fn pn(v: Seq<Plugin>, i: int) -> Seq<char> { v[i].name@ }
#[verifier::opaque] pub open spec fn named_apart(v: Seq<Plugin>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] pn(v, i) != #[trigger] pn(v, j) }
// every plugin is registered under its own name, and nothing else is
#[verifier::opaque] pub open spec fn registered(v: Seq<Plugin>, m: int, t: Map<Seq<char>, Plugin>) -> bool {
  (forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> exists|i: int| 0 <= i < m && k == #[trigger] pn(v, i) && (named_apart(v) ==> t[k] == v[i])) && (forall|i: int| 0 <= i < m ==> t.contains_key(#[trigger] pn(v, i)))
}
pub proof fn lemma_registered(v: Seq<Plugin>, i: int, t: Map<Seq<char>, Plugin>)
  requires 0 <= i < v.len(), registered(v, i, t)
  ensures registered(v, i + 1, t.insert(pn(v, i), v[i]))
{
  reveal(registered); reveal(named_apart);
  let u = t.insert(pn(v, i), v[i]);
  assert forall|k: Seq<char>| #[trigger] u.contains_key(k) implies exists|j: int| 0 <= j < i + 1 && k == #[trigger] pn(v, j) && (named_apart(v) ==> u[k] == v[j]) by {
    if k == pn(v, i) { } else { let j = choose|j: int| 0 <= j < i && k == #[trigger] pn(v, j) && (named_apart(v) ==> t[k] == v[j]); assert(pn(v, j) == k && j < i + 1); }
  }
}
pub open spec fn so_far(v: Seq<Plugin>, m: nat, h: Hk, o: Option<String>) -> bool { nclaims(v, m, h) <= 1 && opt(o) == claimer(v, m, h) }
@fn brack_plugin::plugins::Plugins::new
  ensures
    r is Ok <==> nclaims($0@, $0@.len(), Hk::Document) <= 1 && nclaims($0@, $0@.len(), Hk::Stmt) <= 1 && nclaims($0@, $0@.len(), Hk::Expr) <= 1 && nclaims($0@, $0@.len(), Hk::Text) <= 1,
    r matches Ok(p) ==> registered($0@, $0@.len() as int, p.name_to_plugin.m()) && world(p).hooks =~= seq![claimer($0@, $0@.len(), Hk::Document), claimer($0@, $0@.len(), Hk::Stmt), claimer($0@, $0@.len(), Hk::Expr), claimer($0@, $0@.len(), Hk::Text)],
@hook before loop 0
  proof { reveal(registered); }
@loop 0
  invariant
    vx_i0 <= vx_s0@.len(), vx_s0@ == $0@, registered(vx_s0@, vx_i0 as int, name_to_plugin.m()),
    so_far(vx_s0@, vx_i0 as nat, Hk::Document, document_hook_plugin_name), so_far(vx_s0@, vx_i0 as nat, Hk::Stmt, stmt_hook_plugin_name), so_far(vx_s0@, vx_i0 as nat, Hk::Expr, expr_hook_plugin_name), so_far(vx_s0@, vx_i0 as nat, Hk::Text, text_hook_plugin_name),
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { let v = vx_s0@; let i = vx_i0 - 1; lemma_registered(v, i, name_to_plugin.m()); lemma_claims(v, vx_i0 as nat, Hk::Document); lemma_claims(v, vx_i0 as nat, Hk::Stmt); lemma_claims(v, vx_i0 as nat, Hk::Expr); lemma_claims(v, vx_i0 as nat, Hk::Text); }
