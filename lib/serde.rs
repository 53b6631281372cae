// serde's traits, as far as the configuration uses them.  TRUSTED.
pub struct F { pub key: Seq<char>, pub val: J }
pub trait SerializeStruct: Sized {
  type Ok; type Error;
  // the fields written so far; whether the writer may fail; what a finished struct holds
  spec fn fields(&self) -> Seq<F>;
  spec fn flawed(&self) -> bool;
  spec fn written(o: Self::Ok) -> Seq<F>;
  fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> (r: Result<(), Self::Error>)
    ensures final(self).flawed() == old(self).flawed(), r is Ok ==> final(self).fields() == (if v.js() is Null { old(self).fields() } else { old(self).fields().push(F { key: key@, val: v.js() }) }), r is Err ==> old(self).flawed();
  fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r matches Ok(o) ==> Self::written(o) == self.fields(), r is Err ==> self.flawed();
}
pub trait Serializer: Sized {
  type Ok; type Error; type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
  spec fn flawed(&self) -> bool;
  fn serialize_struct(self, name: &'static str, n: usize) -> (r: Result<Self::SerializeStruct, Self::Error>) ensures r matches Ok(s) ==> s.fields() == Seq::<F>::empty() && s.flawed() == self.flawed(), r is Err ==> self.flawed();
}
// what a type reads itself from
pub trait Readable: Serialize + Sized { spec fn kind(j: J) -> bool; }
impl Readable for String { open spec fn kind(j: J) -> bool { j is Str } }
impl<T: Readable> Readable for Option<T> { open spec fn kind(j: J) -> bool { T::kind(j) } }
impl Readable for bool { open spec fn kind(j: J) -> bool { j is Bool } }
pub mod de {
  use super::*;
  pub enum Unexpected<'a> { Str(&'a str), Bool(bool), Map, Unit }
  pub trait Error: Sized {
    fn duplicate_field(f: &'static str) -> (r: Self);
    fn missing_field(f: &'static str) -> (r: Self);
    fn unknown_field(f: &str, all: &'static [&'static str]) -> (r: Self);
    fn unknown_variant(f: &str, all: &'static [&'static str]) -> (r: Self);
    fn invalid_value<T: ?Sized>(u: Unexpected, e: &T) -> (r: Self);
    fn invalid_type<T: ?Sized>(u: Unexpected, e: &T) -> (r: Self);
    fn custom<T>(e: T) -> (r: Self);
  }
}
// the fields of a map that are still to be read; between a key and its value, the value
pub trait MapAccess<'de>: Sized {
  type Error: de::Error;
  spec fn rest(&self) -> Seq<F>;
  spec fn held(&self) -> Option<J>;
  spec fn flawed(&self) -> bool;
  fn next_key<K: Readable>(&mut self) -> (r: Result<Option<K>, Self::Error>)
    ensures final(self).flawed() == old(self).flawed(),
      r matches Ok(Some(k)) ==> old(self).rest().len() > 0 && k.js() == J::Str(old(self).rest()[0].key) && final(self).rest() == old(self).rest().skip(1) && final(self).held() == Some(old(self).rest()[0].val),
      r matches Ok(None) ==> old(self).rest().len() == 0 && *final(self) == *old(self),
      r is Err ==> old(self).flawed();
  fn next_value<T: Readable>(&mut self) -> (r: Result<T, Self::Error>)
    requires old(self).held() is Some
    ensures final(self).flawed() == old(self).flawed(), final(self).rest() == old(self).rest(),
      r matches Ok(v) ==> old(self).held() == Some(v.js()), r is Err ==> old(self).flawed() || !T::kind(old(self).held()->Some_0);
}
// what a visitor makes of a map with these fields
pub trait Builds { type Value; spec fn fits(f: Seq<F>) -> bool; spec fn builds(f: Seq<F>, v: Self::Value) -> bool; }
pub trait Deserializer<'de>: Sized {
  type Error: de::Error;
  spec fn given(&self) -> Option<Seq<F>>;
  spec fn flawed(&self) -> bool;
  fn deserialize_struct<V: Builds>(self, name: &'static str, all: &'static [&'static str], v: V) -> (r: Result<V::Value, Self::Error>)
    ensures match r { Ok(p) => self.given() matches Some(f) && V::builds(f, p), Err(_) => self.flawed() || (self.given() matches Some(f) ==> !V::fits(f)) };
}
pub trait VAsStr { spec fn vx_chars(&self) -> Seq<char>; fn vas_str(&self) -> (r: &str) ensures r@ == self.vx_chars(); }
impl VAsStr for String { open spec fn vx_chars(&self) -> Seq<char> { self@ } fn vas_str(&self) -> (r: &str) { self.as_str() } }
// looking a field up among the first n
pub open spec fn look(f: Seq<F>, n: int, k: Seq<char>) -> Option<J> decreases n {
  if n <= 0 || n > f.len() { None } else { match look(f, n - 1, k) { Some(j) => Some(j), None => if f[n - 1].key == k { Some(f[n - 1].val) } else { None } } }
}
#[verifier::opaque] pub open spec fn at(f: Seq<F>, k: Seq<char>) -> Option<J> { look(f, f.len() as int, k) }
pub open spec fn twice(f: Seq<F>) -> bool { exists|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] f[i]).key == (#[trigger] f[j]).key }
pub proof fn lemma_look(f: Seq<F>, n: int, m: int, k: Seq<char>) requires 0 <= n <= m <= f.len() ensures look(f, n, k) is Some ==> look(f, m, k) == look(f, n, k) decreases m { if m > n { lemma_look(f, n, m - 1, k); } }
pub proof fn lemma_found(f: Seq<F>, n: int, k: Seq<char>) -> (i: int) requires 0 <= n <= f.len(), look(f, n, k) is Some ensures 0 <= i < n, f[i].key == k, look(f, n, k) == Some(f[i].val) decreases n { if look(f, n - 1, k) is Some { lemma_found(f, n - 1, k) } else { n - 1 } }
pub proof fn lemma_push(f: Seq<F>, n: int, x: F, k: Seq<char>) requires 0 <= n <= f.len() ensures look(f.push(x), n, k) == look(f, n, k) decreases n { if n > 0 { lemma_push(f, n - 1, x, k); } }
// reading one more field
pub proof fn lemma_next(f: Seq<F>, n: int) requires 0 <= n < f.len()
  ensures ({ let k = f[n].key; (look(f, n, k) is Some ==> !once(f)) && (look(f, n, k) is None ==> at(f, k) == Some(f[n].val)) })
{ reveal(at); let k = f[n].key; if look(f, n, k) is Some { let i = lemma_found(f, n, k); assert(f[i].key == f[n].key); reveal(once); } else { lemma_look(f, n + 1, f.len() as int, k); } }
// fields written so far: no key twice
#[verifier::opaque] pub open spec fn once(f: Seq<F>) -> bool { !twice(f) }
pub broadcast proof fn lemma_once(f: Seq<F>, x: F) ensures #![trigger once(f.push(x))] once(f) && at(f, x.key) is None ==> once(f.push(x))
{ reveal(at); reveal(once); if once(f) && at(f, x.key) is None && twice(f.push(x)) { let g = f.push(x); let (i, j) = choose|i: int, j: int| 0 <= i < j < g.len() && (#[trigger] g[i]).key == (#[trigger] g[j]).key; if j < f.len() { assert(f[i].key == f[j].key); } else { lemma_absent(f, f.len() as int, x.key, i); } } }
pub proof fn lemma_absent(f: Seq<F>, n: int, k: Seq<char>, i: int) requires 0 <= i < n <= f.len(), look(f, n, k) is None ensures f[i].key != k decreases n { if i < n - 1 { lemma_absent(f, n - 1, k, i); } }
pub broadcast proof fn lemma_at(f: Seq<F>, x: F, k: Seq<char>) ensures #![trigger at(f.push(x), k)] at(f.push(x), k) == (match at(f, k) { Some(j) => Some(j), None => if x.key == k { Some(x.val) } else { None } })
{ reveal(at); lemma_push(f, f.len() as int, x, k); }
pub proof fn lemma_none() ensures once(Seq::empty()), forall|k: Seq<char>| #[trigger] at(Seq::empty(), k) is None { reveal(at); reveal(once); }
broadcast use {lemma_once, lemma_at};
