// Walking a hash map: its entries in some order, each once.  TRUSTED (std).
impl<K: VKey, T> HashMap<K, T> {
  pub uninterp spec fn entries(&self) -> Seq<(K, T)>;
  #[verifier::external_body] pub proof fn lemma_entries(&self)
    ensures forall|i: int| 0 <= i < self.entries().len() ==> self.m().contains_key((#[trigger] self.entries()[i]).0.key()) && self.m()[self.entries()[i].0.key()] == self.entries()[i].1,
      forall|i: int, j: int| 0 <= i < j < self.entries().len() ==> (#[trigger] self.entries()[i]).0.key() != (#[trigger] self.entries()[j]).0.key() { }
  #[verifier::external_body] pub proof fn lemma_at(&self, k: K::K) -> (i: int) requires self.m().contains_key(k) ensures 0 <= i < self.entries().len(), self.entries()[i].0.key() == k, self.m()[k] == self.entries()[i].1 { unimplemented!() }
  pub fn vx_ref(&self) -> (r: &Self) ensures *r == *self { self }
  pub fn vvalues<'a>(&'a self) -> (r: VValues<'a, K, T>) ensures *r.0 == *self { VValues(self) }
}
impl<'a, K: VKey, T> VSeq for &'a HashMap<K, T> { type Item = (&'a K, &'a T); open spec fn vx_n(&self) -> nat { (**self).entries().len() } open spec fn vx_item(&self, i: int, r: (&'a K, &'a T)) -> bool { *r.0 == (**self).entries()[i].0 && *r.1 == (**self).entries()[i].1 }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: (&'a K, &'a T)) { unimplemented!() } }
impl<K: VKey, T> VSeq for HashMap<K, T> { type Item = (K, T); open spec fn vx_n(&self) -> nat { self.entries().len() } open spec fn vx_item(&self, i: int, r: (K, T)) -> bool { r == self.entries()[i] }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: (K, T)) { unimplemented!() } }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct VValues<'a, K: VKey, T>(pub &'a HashMap<K, T>);
impl<'a, K: VKey, T> VSeq for VValues<'a, K, T> { type Item = &'a T; open spec fn vx_n(&self) -> nat { self.0.entries().len() } open spec fn vx_item(&self, i: int, r: &'a T) -> bool { *r == self.0.entries()[i].1 }
  #[verifier::external_body] fn vx_len(&self) -> (n: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: &'a T) { unimplemented!() } }
