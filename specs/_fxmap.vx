verus! {
// ---- trusted contract of the hash map (rustc_hash::FxHashMap = std HashMap with another hasher) -------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct FxHashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }

impl<K, V> View for FxHashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None })
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (forall|k: K| !self@.dom().contains(k))
    { unimplemented!() }
}

/// `map.entry(k).or_default()` for byte-vector values
#[verifier::external_body]
pub fn vx_entry_or_default<K>(m: &mut FxHashMap<K, Vec<u8>>, k: K) -> (r: &mut Vec<u8>)
    ensures
        r@ == (if old(m)@.dom().contains(k) { old(m)@[k]@ } else { Seq::<u8>::empty() }),
        final(m)@ == old(m)@.insert(k, *final(r)),
{ unimplemented!() }
} // verus!
