// JSON values and their texts, as far as the specifications see them.  TRUSTED (serde_json).
pub enum Nm { Int(int), Other(int) }
pub enum J { Null, Bool(bool), Num(Nm), Str(Seq<char>), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }
#[verifier::external_body] pub struct Number { x: u8 }
#[verifier::external_body] pub struct VMap { x: u8 }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(VMap) }
pub uninterp spec fn jv(v: Value) -> J;
pub broadcast axiom fn axiom_jv(v: Value) ensures match v { Value::Null => #[trigger] jv(v) == J::Null, Value::Bool(b) => jv(v) == J::Bool(b), Value::Number(_) => jv(v) is Num, Value::String(s) => jv(v) == J::Str(s@), Value::Array(_) => jv(v) is Arr, Value::Object(_) => jv(v) is Obj };
// what serde_json writes for a value, and reads back
pub uninterp spec fn text(j: J) -> Seq<char>;
pub uninterp spec fn untext(t: Seq<char>) -> J;
pub broadcast axiom fn axiom_untext(j: J) ensures #![trigger text(j)] untext(text(j)) == j;
pub open spec fn member(j: J, k: Seq<char>) -> Option<J> { match j { J::Obj(m) => if m.contains_key(k) { Some(m[k]) } else { None }, _ => None } }
pub trait Serialize { spec fn js(&self) -> J; }
impl Serialize for Value { open spec fn js(&self) -> J { jv(*self) } }
impl Serialize for str { open spec fn js(&self) -> J { J::Str(self@) } }
impl Serialize for String { open spec fn js(&self) -> J { J::Str(self@) } }
impl Serialize for i32 { open spec fn js(&self) -> J { J::Num(Nm::Int(*self as int)) } }
impl Serialize for u32 { open spec fn js(&self) -> J { J::Num(Nm::Int(*self as int)) } }
impl Serialize for usize { open spec fn js(&self) -> J { J::Num(Nm::Int(*self as int)) } }
impl Serialize for bool { open spec fn js(&self) -> J { J::Bool(*self) } }
impl<'a, T: Serialize + ?Sized> Serialize for &'a T { open spec fn js(&self) -> J { (**self).js() } }
impl<T: Serialize> Serialize for Option<T> { open spec fn js(&self) -> J { match self { Some(x) => x.js(), None => J::Null } } }
pub open spec fn jss<T: Serialize>(s: Seq<T>) -> Seq<J> { Seq::new(s.len(), |i: int| s[i].js()) }
impl<T: Serialize> Serialize for Vec<T> { open spec fn js(&self) -> J { J::Arr(jss(self@)) } }
#[verifier::external_body] pub fn vx_json<T: Serialize + ?Sized>(x: &T) -> (r: Value) ensures jv(r) == x.js() { unimplemented!() }
#[verifier::external_body] pub fn vx_jnull() -> (r: Value) ensures jv(r) == J::Null { unimplemented!() }
#[verifier::external_body] pub fn vx_jobj() -> (r: Value) ensures jv(r) == J::Obj(Map::empty()) { unimplemented!() }
#[verifier::external_body] pub fn vx_jarr() -> (r: Value) ensures jv(r) == J::Arr(Seq::empty()) { unimplemented!() }
impl Value {
  #[verifier::external_body] pub fn vx_put(self, k: &str, v: Value) -> (r: Value) ensures jv(self) matches J::Obj(m) ==> jv(r) == J::Obj(m.insert(k@, jv(v))) { unimplemented!() }
  #[verifier::external_body] pub fn vx_add(self, v: Value) -> (r: Value) ensures jv(self) matches J::Arr(m) ==> jv(r) == J::Arr(m.push(jv(v))) { unimplemented!() }
  #[verifier::external_body] pub fn vget(&self, k: &str) -> (r: Option<&Value>) ensures match (r, member(jv(*self), k@)) { (Some(v), Some(j)) => jv(*v) == j, (None, None) => true, _ => false } { unimplemented!() }
  // `v["key"]`: null if absent
  #[verifier::external_body] pub fn vx_at(&self, k: &str) -> (r: &Value) ensures jv(*r) == (match member(jv(*self), k@) { Some(j) => j, None => J::Null }) { unimplemented!() }
  #[verifier::external_body] pub fn is_number(&self) -> (r: bool) ensures r == (jv(*self) is Num) { unimplemented!() }
  #[verifier::external_body] pub fn is_string(&self) -> (r: bool) ensures r == (jv(*self) is Str) { unimplemented!() }
  #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (jv(*self) is Null) { unimplemented!() }
  #[verifier::external_body] pub fn is_boolean(&self) -> (r: bool) ensures r == (jv(*self) is Bool) { unimplemented!() }
  #[verifier::external_body] pub fn is_array(&self) -> (r: bool) ensures r == (jv(*self) is Arr) { unimplemented!() }
  #[verifier::external_body] pub fn is_object(&self) -> (r: bool) ensures r == (jv(*self) is Obj) { unimplemented!() }
  #[verifier::external_body] pub fn vas_str(&self) -> (r: Option<&str>) ensures match (r, jv(*self)) { (Some(s), J::Str(t)) => s@ == t, (None, J::Str(_)) => false, (None, _) => true, _ => false } { unimplemented!() }
}
impl VToString for Value { open spec fn vx_text(&self) -> Seq<char> { text(jv(*self)) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn err_text(e: VErr) -> Seq<char>;
impl VToString for VErr { open spec fn vx_text(&self) -> Seq<char> { err_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub mod serde_json { use super::*; #[verifier::external_body] pub fn to_string<T: Serialize + ?Sized>(x: &T) -> (r: Result<String>) ensures r matches Ok(s) ==> s@ == text(x.js()) { unimplemented!() } }
broadcast use {axiom_untext, axiom_jv};
