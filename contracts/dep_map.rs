// ---- dependency contract (trusted): std HashMap, as far as the parameters use it ------------
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
// collecting a vector into another container
pub trait VxCollect<C>: Sized {
    spec fn collected(self, r: C) -> bool;
    fn vx_collect(self) -> (r: C) ensures self.collected(r);
}
impl<K, V> HashMap<K, V> {
    // the pairs, in the order an iteration over this map yields them
    pub uninterp spec fn pairs(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.pairs().len() { unimplemented!() }
}
impl<K, V> VxSeq for HashMap<K, V> {
    type Elem = (K, V);
    open spec fn vx_seq(&self) -> Seq<(K, V)> { self.pairs() }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &(K, V)) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[(K, V)]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[(K, V)]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[(K, V)]) { unimplemented!() }
}
