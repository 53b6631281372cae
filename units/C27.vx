@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_transformer /repo/crates/brack-transformer/src/lib.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@include ../lib/tokens.rs
@include ../lib/asttree.rs
@prelude
use crate::brack_tokenizer::tokens::{Location, LocationData};
pub open spec fn aid(a: AST) -> Seq<char> { match a { AST::Document(n) => n.id@, AST::Stmt(n) => n.id@, AST::Expr(n) => n.id@, AST::Angle(n) => n.id@, AST::Square(n) => n.id@, AST::Curly(n) => n.id@,
  AST::Ident(n) => n.id@, AST::Module(n) => n.id@, AST::Text(n) => n.id@, AST::Invalid(n) => n.id@, AST::Ignored(n) => n.id@ } }
pub open spec fn aloc(a: AST) -> Location { match a { AST::Document(n) => n.location, AST::Stmt(n) => n.location, AST::Expr(n) => n.location, AST::Angle(n) => n.location, AST::Square(n) => n.location, AST::Curly(n) => n.location,
  AST::Ident(n) => n.location, AST::Module(n) => n.location, AST::Text(n) => n.location, AST::Invalid(n) => n.location, AST::Ignored(n) => n.location } }
// the nodes of a tree, in document order
pub open spec fn nodes(a: AST) -> Seq<AST> decreases a, 0nat via nodes_dec { seq![a] + (if ainner(a) { nodesv(akids(a), akids(a).len()) } else { Seq::empty() }) }
pub open spec fn nodesv(v: Seq<AST>, m: nat) -> Seq<AST> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { nodesv(v, (m - 1) as nat) + nodes(v[m - 1]) } }
#[via_fn] proof fn nodes_dec(a: AST) { if ainner(a) { lemma_asmaller(a); } }
// the first of the nodes with this identity
pub open spec fn absent(s: Seq<AST>, id: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> aid(#[trigger] s[i]) != id }
pub open spec fn first(s: Seq<AST>, id: Seq<char>, x: AST) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && aid(x) == id && absent(s.take(i), id) }
pub open spec fn finds(s: Seq<AST>, id: Seq<char>, r: Option<&AST>) -> bool { match r { Some(x) => first(s, id, *x), None => absent(s, id) } }
pub proof fn lemma_append(s: Seq<AST>, t: Seq<AST>, id: Seq<char>, r: Option<&AST>) requires absent(s, id), finds(t, id, r) ensures finds(s + t, id, r)
{
  let u = s + t;
  match r {
    Some(x) => { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == *x && aid(*x) == id && absent(t.take(i), id); let k = s.len() + i; assert(u[k] == *x);
      assert forall|j: int| 0 <= j < k implies aid(#[trigger] u.take(k)[j]) != id by { if j < s.len() { assert(s[j] == u[j]); } else { assert(t.take(i)[j - s.len()] == u[j]); } } },
    None => { assert forall|j: int| 0 <= j < u.len() implies aid(#[trigger] u[j]) != id by { if j < s.len() { assert(s[j] == u[j]); } else { assert(t[j - s.len()] == u[j]); } } },
  }
}
pub proof fn lemma_prefix(s: Seq<AST>, t: Seq<AST>, id: Seq<char>, x: AST) requires first(s, id, x) ensures first(s + t, id, x)
{ let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && aid(x) == id && absent(s.take(i), id); assert((s + t)[i] == x); assert((s + t).take(i) =~= s.take(i)); }
pub proof fn lemma_kids(v: Seq<AST>, m: nat, n: nat, id: Seq<char>, x: AST) requires m <= n <= v.len(), first(nodesv(v, m), id, x) ensures first(nodesv(v, n), id, x) decreases n
{ if m < n { lemma_kids(v, m, (n - 1) as nat, id, x); lemma_prefix(nodesv(v, (n - 1) as nat), nodes(v[n - 1]), id, x); } }
// the children of the seen ones do not have it; one that has it decides
pub proof fn lemma_step(a: AST, m: nat, id: Seq<char>, r: Option<&AST>)
  requires ainner(a), aid(a) != id, 0 < m <= akids(a).len(), absent(nodesv(akids(a), (m - 1) as nat), id), finds(nodes(akids(a)[m - 1]), id, r)
  ensures r is None ==> absent(nodesv(akids(a), m), id), r is Some ==> finds(nodes(a), id, r)
{
  let v = akids(a); lemma_append(nodesv(v, (m - 1) as nat), nodes(v[m - 1]), id, r);
  if r is Some { lemma_kids(v, m, v.len(), id, *r->Some_0); assert(absent(seq![a], id)); lemma_append(seq![a], nodesv(v, v.len()), id, r); }
}
pub proof fn lemma_steps(a: AST, m: nat, id: Seq<char>)
  requires ainner(a), aid(a) != id, 0 < m <= akids(a).len(), absent(nodesv(akids(a), (m - 1) as nat), id)
  ensures forall|r: Option<&AST>| #[trigger] finds(nodes(akids(a)[m - 1]), id, r) ==> (r is None ==> absent(nodesv(akids(a), m), id)) && (r is Some ==> finds(nodes(a), id, r))
{ assert forall|r: Option<&AST>| #[trigger] finds(nodes(akids(a)[m - 1]), id, r) implies (r is None ==> absent(nodesv(akids(a), m), id)) && (r is Some ==> finds(nodes(a), id, r)) by { lemma_step(a, m, id, r); } }
pub proof fn lemma_none(a: AST, id: Seq<char>) requires ainner(a), aid(a) != id, absent(nodesv(akids(a), akids(a).len()), id) ensures finds(nodes(a), id, None)
{ assert(absent(seq![a], id)); lemma_append(seq![a], nodesv(akids(a), akids(a).len()), id, None); }
pub proof fn lemma_self(a: AST, id: Seq<char>) ensures aid(a) == id ==> first(nodes(a), id, a), !ainner(a) && aid(a) != id ==> absent(nodes(a), id)
{ assert(nodes(a)[0] == a); assert(absent(nodes(a).take(0), id)); }
pub open spec fn merged(a: Location, b: Location, r: Location) -> bool { r.start == (if le(a.start, b.start) { a.start } else { b.start }) && r.end == (if le(a.end, b.end) { b.end } else { a.end }) }
// a formatter: what was written to it
pub mod fmt {
  use super::*;
  #[verifier::external_body] pub struct Formatter<'a> { x: core::marker::PhantomData<&'a u8> }
  pub struct Error;
  pub type Result = core::result::Result<(), Error>;
  impl<'a> Formatter<'a> {
    pub uninterp spec fn put(&self) -> Seq<char>;
    pub uninterp spec fn works(&self) -> bool;
    #[verifier::external_body] pub fn vx_put(&mut self, t: String) -> (r: Result) ensures r is Ok == old(self).works(), final(self).works() == old(self).works(), r is Ok ==> final(self).put() == old(self).put() + t@ { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, t: &str) -> (r: Result) ensures r is Ok == old(self).works(), final(self).works() == old(self).works(), r is Ok ==> final(self).put() == old(self).put() + t@ { unimplemented!() }
  }
}
pub trait Display { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result; }
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s } }
pub trait VRepeat { fn vrepeat(&self, n: usize) -> String; }
impl VRepeat for str { #[verifier::external_body] fn vrepeat(&self, n: usize) -> (r: String) ensures r@ == rep(self@, n as nat) { unimplemented!() } }
pub trait VText { spec fn shows(&self) -> Seq<char>; fn vas_deref(&self) -> (r: Option<&str>); }
impl VText for Option<String> { open spec fn shows(&self) -> Seq<char> { match *self { Some(s) => s@, None => Seq::empty() } }
  #[verifier::external_body] fn vas_deref(&self) -> (r: Option<&str>) ensures r is Some == self is Some, r matches Some(s) ==> s@ == self->Some_0@ { unimplemented!() } }
pub trait VOrDefault<T> { fn vor_default(self) -> (r: T); }
impl<'a> VOrDefault<&'a str> for Option<&'a str> { #[verifier::external_body] fn vor_default(self) -> (r: &'a str) ensures r@ == (match self { Some(s) => s@, None => Seq::empty() }) { unimplemented!() } }
impl VOrDefault<String> for Option<String> { #[verifier::external_body] fn vor_default(self) -> (r: String) ensures r@ == (match self { Some(s) => s@, None => Seq::empty() }) { unimplemented!() } }
pub open spec fn kind(a: AST) -> Seq<char> { match a { AST::Document(_) => "Document"@, AST::Stmt(_) => "Stmt"@, AST::Expr(_) => "Expr"@, AST::Angle(_) => "Angle"@, AST::Square(_) => "Square"@, AST::Curly(_) => "Curly"@,
  AST::Ident(_) => "Ident"@, AST::Module(_) => "Module"@, AST::Text(_) => "Text"@, AST::Invalid(_) => "Invalid"@, AST::Ignored(_) => "Ignored"@ } }
// the line of a node, and the lines of a tree
pub open spec fn line(a: AST, d: nat) -> Seq<char> {
  let v = match aval(a) { Some(s) => s, None => Seq::<char>::empty() };
  match a { AST::Ident(_) => rep("  "@, d) + "Ident: "@ + v + "\n"@, AST::Module(_) => rep("  "@, d) + "Module: "@ + v + "\n"@, AST::Text(_) => rep("  "@, d) + "Text: "@ + v + "\n"@, _ => rep("  "@, d) + kind(a) + "\n"@ }
}
pub open spec fn shown(a: AST, d: nat) -> Seq<char> decreases a, 0nat via shown_dec { line(a, d) + (if ainner(a) { shownv(akids(a), akids(a).len(), d + 1) } else { Seq::empty() }) }
pub open spec fn shownv(v: Seq<AST>, m: nat, d: nat) -> Seq<char> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { shownv(v, (m - 1) as nat, d) + shown(v[m - 1], d) } }
// the line of a node and those of its first children
#[verifier::opaque] pub open spec fn upto(a: AST, d: nat, m: nat) -> Seq<char> { line(a, d) + shownv(akids(a), m, d + 1) }
pub proof fn lemma_shown(a: AST, d: nat) ensures !ainner(a) ==> shown(a, d) == line(a, d), ainner(a) ==> upto(a, d, 0) == line(a, d) && upto(a, d, akids(a).len()) == shown(a, d)
{ reveal(upto); assert(line(a, d) + Seq::<char>::empty() =~= line(a, d)); assert(shownv(akids(a), 0, d + 1) =~= Seq::<char>::empty()); }
pub proof fn lemma_child(s: Seq<char>, a: AST, d: nat, m: nat) requires ainner(a), m < akids(a).len() ensures (s + upto(a, d, m)) + shown(akids(a)[m as int], d + 1) == s + upto(a, d, m + 1)
{ reveal(upto); assert(shownv(akids(a), m + 1, d + 1) == shownv(akids(a), m, d + 1) + shown(akids(a)[m as int], d + 1)); assert((s + upto(a, d, m)) + shown(akids(a)[m as int], d + 1) =~= s + upto(a, d, m + 1)); }
pub open spec fn height(a: AST) -> nat decreases a, 0nat via height_dec { if ainner(a) { 1 + heights(akids(a), akids(a).len()) } else { 0 } }
pub open spec fn heights(v: Seq<AST>, m: nat) -> nat decreases v, m { if m == 0 || m > v.len() { 0 } else { let x = heights(v, (m - 1) as nat); let y = height(v[m - 1]); if x < y { y } else { x } } }
#[via_fn] proof fn height_dec(a: AST) { if ainner(a) { lemma_asmaller(a); } }
pub proof fn lemma_height(v: Seq<AST>, i: int, m: nat) requires 0 <= i < m <= v.len() ensures height(v[i]) <= heights(v, m) decreases m { if i < m - 1 { lemma_height(v, i, (m - 1) as nat); } }
pub proof fn lemma_lower(a: AST) requires ainner(a) ensures forall|i: int| 0 <= i < akids(a).len() ==> height(#[trigger] akids(a)[i]) < height(a)
{ assert forall|i: int| 0 <= i < akids(a).len() implies height(#[trigger] akids(a)[i]) < height(a) by { lemma_height(akids(a), i, akids(a).len()); } }
#[via_fn] proof fn shown_dec(a: AST, d: nat) { if ainner(a) { lemma_asmaller(a); } }
@fn brack_tokenizer::tokens::merge_location
  ensures merged(*$0, *$1, r)
@fn brack_transformer::ast::AST::children
  requires ainner(*$0)
  ensures r@ == akids(*$0)
@fn brack_transformer::ast::AST::value
  requires $0 is Ident || $0 is Module || $0 is Text
  ensures text(r) == aval(*$0)
@fn brack_transformer::ast::AST::id
  ensures r@ == aid(*$0)
@fn brack_transformer::ast::AST::get
  ensures finds(nodes(*$0), $1@, r)
  decreases *$0
@hook entry
  proof { lemma_self(*$0, $1@); if ainner(*$0) { lemma_asmaller(*$0); } }
@loop 0
  invariant vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i0 as nat), $1@)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_steps(*$0, vx_i0 as nat, $1@); }
@loop 1
  invariant vx_i1 <= vx_s1@.len(), vx_s1@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i1 as nat), $1@)
  decreases vx_s1@.len() - vx_i1
@hook loop 1 item
  proof { lemma_steps(*$0, vx_i1 as nat, $1@); }
@loop 2
  invariant vx_i2 <= vx_s2@.len(), vx_s2@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i2 as nat), $1@)
  decreases vx_s2@.len() - vx_i2
@hook loop 2 item
  proof { lemma_steps(*$0, vx_i2 as nat, $1@); }
@loop 3
  invariant vx_i3 <= vx_s3@.len(), vx_s3@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i3 as nat), $1@)
  decreases vx_s3@.len() - vx_i3
@hook loop 3 item
  proof { lemma_steps(*$0, vx_i3 as nat, $1@); }
@loop 4
  invariant vx_i4 <= vx_s4@.len(), vx_s4@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i4 as nat), $1@)
  decreases vx_s4@.len() - vx_i4
@hook loop 4 item
  proof { lemma_steps(*$0, vx_i4 as nat, $1@); }
@loop 5
  invariant vx_i5 <= vx_s5@.len(), vx_s5@ == akids(*$0), ainner(*$0), aid(*$0) != $1@, absent(nodesv(akids(*$0), vx_i5 as nat), $1@)
  decreases vx_s5@.len() - vx_i5
@hook loop 5 item
  proof { lemma_steps(*$0, vx_i5 as nat, $1@); }
@hook after loop 0
  proof { lemma_none(*$0, $1@); }
@hook after loop 1
  proof { lemma_none(*$0, $1@); }
@hook after loop 2
  proof { lemma_none(*$0, $1@); }
@hook after loop 3
  proof { lemma_none(*$0, $1@); }
@hook after loop 4
  proof { lemma_none(*$0, $1@); }
@hook after loop 5
  proof { lemma_none(*$0, $1@); }
@fn brack_transformer::ast::AST::add
  requires ainner(*old($0))
  ensures ak(*final($0)) == ak(*old($0)), aid(*final($0)) == aid(*old($0)), akids(*final($0)) == akids(*old($0)).push($1), merged(aloc(*old($0)), aloc($1), aloc(*final($0)))
@rename repeat vrepeat
@rename as_deref vas_deref
@rename unwrap_or_default vor_default
@fn brack_transformer::ast::AST::display_with_ident
  requires $2 + height(*$0) <= usize::MAX
  ensures r is Ok == old($1).works(), r is Ok ==> final($1).works(), r is Ok ==> final($1).put() == old($1).put() + shown(*$0, $2 as nat)
  decreases *$0
@hook entry
  proof { if ainner(*$0) { lemma_asmaller(*$0); lemma_lower(*$0); } lemma_shown(*$0, $2 as nat); }
@loop 0
  invariant vx_i0 <= vx_s0@.len(), vx_s0@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i0 as nat)
  decreases vx_s0@.len() - vx_i0
@hook loop 0 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i0 - 1) as nat); }
@loop 1
  invariant vx_i1 <= vx_s1@.len(), vx_s1@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i1 as nat)
  decreases vx_s1@.len() - vx_i1
@hook loop 1 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i1 - 1) as nat); }
@loop 2
  invariant vx_i2 <= vx_s2@.len(), vx_s2@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i2 as nat)
  decreases vx_s2@.len() - vx_i2
@hook loop 2 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i2 - 1) as nat); }
@loop 3
  invariant vx_i3 <= vx_s3@.len(), vx_s3@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i3 as nat)
  decreases vx_s3@.len() - vx_i3
@hook loop 3 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i3 - 1) as nat); }
@loop 4
  invariant vx_i4 <= vx_s4@.len(), vx_s4@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i4 as nat)
  decreases vx_s4@.len() - vx_i4
@hook loop 4 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i4 - 1) as nat); }
@loop 5
  invariant vx_i5 <= vx_s5@.len(), vx_s5@ == akids(*$0), ainner(*$0), $2 + height(*$0) <= usize::MAX, old($1).works(), $1.works(), $1.put() == old($1).put() + upto(*$0, $2 as nat, vx_i5 as nat)
  decreases vx_s5@.len() - vx_i5
@hook loop 5 item
  proof { lemma_child(old($1).put(), *$0, $2 as nat, (vx_i5 - 1) as nat); }
@fn brack_transformer::ast::AST::fmt
  requires height(*$0) <= usize::MAX
  ensures r is Ok == old($1).works(), r is Ok ==> final($1).put() == old($1).put() + shown(*$0, 0)
