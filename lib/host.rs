// The plugin host, the file system and the hash maps, as far as the specifications see them.  TRUSTED.
use crate::brack_plugin::types::Type;
use crate::brack_plugin::value::Value as PValue;
use crate::brack_plugin::metadata::Metadata;
use crate::brack_plugin::feature_flag::FeatureFlag;
use crate::brack_plugin::plugin::Plugin;
use crate::brack_plugin::plugins::Plugins;
use crate::brack_transformer::ast::AST;
// what a call hands to the host
pub enum V { Text(Seq<char>), Array(Seq<Seq<char>>), Opt(Option<Seq<char>>) }
pub open spec fn sv(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn vv(v: PValue) -> V { match v { PValue::Text(s) => V::Text(s@), PValue::TextArray(s) => V::Array(sv(s@)), PValue::TextOption(Some(s)) => V::Opt(Some(s@)), PValue::TextOption(None) => V::Opt(None) } }
pub open spec fn vvs(s: Seq<PValue>) -> Seq<V> { Seq::new(s.len(), |i: int| vv(s[i])) }
pub enum In { Nothing, Values(Seq<V>), Macro(AST, Seq<char>) }
pub struct Call { pub name: Seq<char>, pub input: In }
pub struct Json<T>(pub T);
pub trait ToBytes { spec fn input(&self) -> In; }
impl ToBytes for () { open spec fn input(&self) -> In { In::Nothing } }
impl ToBytes for Json<Vec<PValue>> { open spec fn input(&self) -> In { In::Values(vvs(self.0@)) } }
impl ToBytes for Json<(AST, String)> { open spec fn input(&self) -> In { In::Macro(self.0.0, self.0.1@) } }
pub trait FromBytes: Sized { }
impl FromBytes for String { }
impl FromBytes for Json<AST> { }
impl FromBytes for Json<Vec<Metadata>> { }
// what a plugin answers to the last of the calls made to it so far, if it does
pub uninterp spec fn answer<U>(wasm: Seq<u8>, log: Seq<Call>) -> Option<U>;
#[verifier::external_body] pub struct ExtismPlugin { x: u8 }
pub uninterp spec fn wasm(p: ExtismPlugin) -> Seq<u8>;
pub uninterp spec fn log(p: ExtismPlugin) -> Seq<Call>;
pub uninterp spec fn is_plugin(wasm: Seq<u8>) -> bool;
impl ExtismPlugin {
  #[verifier::external_body] pub fn new(bin: Vec<u8>, functions: [u8; 0], wasi: bool) -> (r: Result<ExtismPlugin>) ensures r is Ok <==> is_plugin(bin@), r matches Ok(p) ==> wasm(p) == bin@ && log(p) == Seq::<Call>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn call<T: ToBytes, U: FromBytes>(&mut self, name: impl VToString, input: T) -> (r: Result<U>)
    ensures wasm(*final(self)) == wasm(*old(self)), log(*final(self)) == log(*old(self)).push(Call { name: name.vx_text(), input: input.input() }),
      r matches Ok(u) ==> answer::<U>(wasm(*old(self)), log(*final(self))) == Some(u), r is Err ==> answer::<U>(wasm(*old(self)), log(*final(self))) is None
  { unimplemented!() }
}
pub trait AsRef<T: ?Sized> { }
pub uninterp spec fn content<P>(p: P) -> Option<Seq<u8>>;
impl VKey for (String, Type) { type K = (Seq<char>, Type); open spec fn key(&self) -> (Seq<char>, Type) { (self.0@, self.1) } }
// parts of vectors
pub trait VGet<'a, I> { type Out; spec fn vx_getp(&self, i: I, r: Option<Self::Out>) -> bool; fn vget(&'a self, i: I) -> (r: Option<Self::Out>) ensures self.vx_getp(i, r); }
impl<'a, T: 'a> VGet<'a, usize> for Vec<T> { type Out = &'a T; open spec fn vx_getp(&self, i: usize, r: Option<&'a T>) -> bool { (r is Some <==> i < self@.len()) && (r matches Some(x) ==> *x == self@[i as int]) } #[verifier::external_body] fn vget(&'a self, i: usize) -> (r: Option<&'a T>) { unimplemented!() } }
impl<'a, T: 'a> VGet<'a, core::ops::RangeFrom<usize>> for Vec<T> { type Out = &'a [T]; open spec fn vx_getp(&self, i: core::ops::RangeFrom<usize>, r: Option<&'a [T]>) -> bool { (r is Some <==> i.start <= self@.len()) && (r matches Some(x) ==> x@ == self@.skip(i.start as int)) } #[verifier::external_body] fn vget(&'a self, i: core::ops::RangeFrom<usize>) -> (r: Option<&'a [T]>) { unimplemented!() } }
pub trait VFirst<T> { spec fn vx_firstp(&self) -> Seq<T>; fn vfirst(&self) -> (r: Option<&T>) ensures r is Some <==> self.vx_firstp().len() > 0, r matches Some(x) ==> *x == self.vx_firstp()[0]; }
impl<T> VFirst<T> for Vec<T> { open spec fn vx_firstp(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vfirst(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait VOrText { fn vor_empty(self) -> String; }
impl VOrText for Option<String> { #[verifier::external_body] fn vor_empty(self) -> (r: String) ensures r@ == (match self { Some(x) => x@, None => Seq::empty() }) { unimplemented!() } }
pub trait VOrEmpty<'a, T> { fn vor_empty(self) -> (r: &'a [T]); }
impl<'a, T> VOrEmpty<'a, T> for Option<&'a [T]> { #[verifier::external_body] fn vor_empty(self) -> (r: &'a [T]) ensures r@ == (match self { Some(x) => x@, None => Seq::empty() }) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Type { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Type) -> bool { *self == *o } }
impl PartialEq for Type { #[verifier::external_body] fn eq(&self, o: &Type) -> bool { unimplemented!() } }
// the registry, as the specifications see it
pub struct P { pub wasm: Seq<u8>, pub table: Map<(Seq<char>, Type), Metadata>, pub log: Seq<Call> }
pub struct W { pub plugins: Map<Seq<char>, P>, pub hooks: Seq<Option<Seq<char>>> }
pub open spec fn pw(p: Plugin) -> P { P { wasm: wasm(p.extism_plugin), table: p.signature_to_metadata.m(), log: log(p.extism_plugin) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn pws(m: Map<Seq<char>, Plugin>) -> Map<Seq<char>, P> { m.map_values(|q: Plugin| pw(q)) }
pub broadcast proof fn lemma_pws(m: Map<Seq<char>, Plugin>, k: Seq<char>, p: Plugin) ensures #![trigger pws(m.insert(k, p))] pws(m.insert(k, p)) == pws(m).insert(k, pw(p)), m.contains_key(k) && pw(m[k]) == pw(p) ==> pws(m.insert(k, p)) == pws(m)
{ assert(pws(m.insert(k, p)) =~= pws(m).insert(k, pw(p))); if m.contains_key(k) && pw(m[k]) == pw(p) { assert(pws(m.insert(k, p)) =~= pws(m)); } }
broadcast use {lemma_pws};
pub open spec fn world(p: Plugins) -> W { W { plugins: pws(p.name_to_plugin.m()), hooks: seq![opt(p.document_hook_plugin_name), opt(p.stmt_hook_plugin_name), opt(p.expr_hook_plugin_name), opt(p.text_hook_plugin_name)] } }
pub open spec fn found(w: W, m: Seq<char>, c: Seq<char>, t: Type) -> bool { w.plugins.contains_key(m) && w.plugins[m].table.contains_key((c, t)) }
pub open spec fn entry(w: W, m: Seq<char>, c: Seq<char>, t: Type) -> Metadata { w.plugins[m].table[(c, t)] }
// the registry after one more call of a command
pub open spec fn after(w: W, m: Seq<char>, c: Seq<char>, t: Type, i: In) -> W {
  let p = w.plugins[m];
  W { plugins: w.plugins.insert(m, P { log: p.log.push(Call { name: entry(w, m, c, t).call_name@, input: i }), ..p }), ..w }
}
pub open spec fn said<U>(w: W, m: Seq<char>, c: Seq<char>, t: Type, i: In) -> Option<U> { if found(w, m, c, t) { answer::<U>(w.plugins[m].wasm, after(w, m, c, t, i).plugins[m].log) } else { None } }
pub open spec fn called(w: W, m: Seq<char>, c: Seq<char>, t: Type, i: In) -> W { if found(w, m, c, t) { after(w, m, c, t, i) } else { w } }
pub enum Hk { Document, Stmt, Expr, Text }
pub open spec fn hn(h: Hk) -> Seq<char> { match h { Hk::Document => "document"@, Hk::Stmt => "stmt"@, Hk::Expr => "expr"@, Hk::Text => "text"@ } }
pub open spec fn hi(h: Hk) -> int { match h { Hk::Document => 0, Hk::Stmt => 1, Hk::Expr => 2, Hk::Text => 3 } }
pub open spec fn ht(h: Hk) -> Type { match h { Hk::Document => Type::TBlock, Hk::Stmt => Type::TBlock, Hk::Expr => Type::TInline, Hk::Text => Type::TInline } }
pub open spec fn claims(f: FeatureFlag, h: Hk) -> bool { match h { Hk::Document => f.document_hook, Hk::Stmt => f.stmt_hook, Hk::Expr => f.expr_hook, Hk::Text => f.text_hook } }
// calling the hook: Some(answer), or None if there is no plugin to call
pub open spec fn hook_said(w: W, h: Hk, i: In) -> Option<Option<Seq<char>>> {
  match w.hooks[hi(h)] { None => Some(None), Some(m) => match said::<String>(w, m, hn(h), ht(h), i) { Some(s) => Some(Some(s@)), None => None } }
}
pub open spec fn hook_called(w: W, h: Hk, i: In) -> W { match w.hooks[hi(h)] { None => w, Some(m) => called(w, m, hn(h), ht(h), i) } }
pub proof fn lemma_vvs0() ensures vvs(Seq::<PValue>::empty()) == Seq::<V>::empty() { assert(vvs(Seq::<PValue>::empty()) =~= Seq::<V>::empty()); }
pub broadcast proof fn lemma_vvs(s: Seq<PValue>, x: PValue) ensures #![trigger vvs(s.push(x))] vvs(s.push(x)) == vvs(s).push(vv(x)) { assert(vvs(s.push(x)) =~= vvs(s).push(vv(x))); }
pub broadcast proof fn lemma_vvs1(x: PValue) ensures #![trigger vvs(Seq::empty().push(x))] vvs(Seq::empty().push(x)) == seq![vv(x)] { assert(vvs(Seq::empty().push(x)) =~= seq![vv(x)]); }
broadcast use {lemma_vvs, lemma_vvs1};
