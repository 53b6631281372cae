// Hash maps.  TRUSTED (std).
// hash maps: equal texts are equal keys
pub trait VKey { type K; spec fn key(&self) -> Self::K; }
impl VKey for str { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl VKey for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct HashMap<K: VKey, T> { k: core::marker::PhantomData<K>, t: core::marker::PhantomData<T> }
impl<K: VKey, T> HashMap<K, T> {
  pub uninterp spec fn m(&self) -> Map<K::K, T>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<K::K, T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, t: T) -> (r: Option<T>) ensures final(self).m() == old(self).m().insert(k.key(), t), r is Some <==> old(self).m().contains_key(k.key()), r matches Some(o) ==> o == old(self).m()[k.key()] { unimplemented!() }
  #[verifier::external_body] pub fn vget<Q: VKey<K = K::K> + ?Sized>(&self, q: &Q) -> (r: Option<&T>) ensures r is Some <==> self.m().contains_key(q.key()), r matches Some(t) ==> *t == self.m()[q.key()] { unimplemented!() }
  #[verifier::external_body] pub fn contains_key<Q: VKey<K = K::K> + ?Sized>(&self, q: &Q) -> (b: bool) ensures b == self.m().contains_key(q.key()) { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VKey<K = K::K> + ?Sized>(&mut self, q: &Q) -> (r: Option<T>) ensures final(self).m() == old(self).m().remove(q.key()), r is Some <==> old(self).m().contains_key(q.key()), r matches Some(o) ==> o == old(self).m()[q.key()] { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<K::K, T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn vx_or_insert(&mut self, k: K, v: T) -> (r: &mut T)
    ensures *r == (if old(self).m().contains_key(k.key()) { old(self).m()[k.key()] } else { v }), final(self).m() == old(self).m().insert(k.key(), *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn get_mut<Q: VKey<K = K::K> + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut T>)
    ensures r is Some <==> old(self).m().contains_key(q.key()), r matches Some(t) ==> *t == old(self).m()[q.key()] && final(self).m() == old(self).m().insert(q.key(), *final(t)), r is None ==> *final(self) == *old(self) { unimplemented!() }
}
impl<K: VKey, T> Default for HashMap<K, T> { #[verifier::external_body] fn default() -> (r: Self) ensures r.m() == Map::<K::K, T>::empty() { unimplemented!() } }
