// Further map stand-ins: FxHashMap with String keys, BTreeMap with text keys, entry, values, drain.
//@grw $x:recv . entry ( $$k ) . or_insert_with ( || $$v ) ==> $x . vx_entry_or_insert ( $k , $v )
//@grw $x:recv . entry ( $$k ) . or_insert ( $$v ) ==> $x . vx_entry_or_insert ( $k , $v )
verus! {
/// byte order of the UTF-8 encodings
pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{ if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { bytes_lt(a.skip(1), b.skip(1)) } }
pub open spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool { bytes_lt(encode_utf8(a), encode_utf8(b)) }
/// iteration order of a hash map: some order
pub uninterp spec fn vx_key_order<K, V>(m: Map<K, V>) -> Seq<K>;
pub axiom fn axiom_key_order<K, V>(m: Map<K, V>)
    ensures vx_key_order(m).no_duplicates(), forall|k: K| #![auto] vx_key_order(m).contains(k) <==> m.dom().contains(k);
pub open spec fn values_in_order<K, V>(m: Map<K, V>, v: Seq<V>) -> bool {
    v.len() == vx_key_order(m).len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == m[vx_key_order(m)[i]]
}
impl<K, V> FxHashMap<K, V> {
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { v }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    /// values() by reference
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures r@.len() == vx_key_order(self@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[vx_key_order(self@)[i]]
    { unimplemented!() }
    /// values()
    #[verifier::external_body]
    pub fn vx_values(self) -> (r: Vec<V>)
        ensures values_in_order(self@, r@)
    { unimplemented!() }
}
/// FxHashMap<String, V>
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct StrMap<V> { v: core::marker::PhantomData<V> }
impl<V> View for StrMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> StrMap<V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures
            r is Some == old(self)@.dom().contains(k@),
            r is None ==> final(self)@ == old(self)@,
            r matches Some(x) ==> *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: String, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v }),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    /// into_values() / drain(), values only
    #[verifier::external_body]
    pub fn vx_values(&mut self) -> (r: Vec<V>)
        ensures values_in_order(old(self)@, r@)
    { unimplemented!() }
}
/// BTreeMap<Cow<str>, V>
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct TextTree<V> { v: core::marker::PhantomData<V> }
impl<V> View for TextTree<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub open spec fn ascending(k: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> text_lt(#[trigger] k[i], #[trigger] k[j]) }
impl<V> TextTree<V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: Cow<'_, str>, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v }),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    /// into_values(): in key order
    #[verifier::external_body]
    pub fn vx_values(self) -> (r: Vec<V>)
        ensures values_in_order(self@, r@), ascending(vx_key_order(self@))
    { unimplemented!() }
}
impl<'a> Clone for Cow<'a, str> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cow_str<'a>(c: &'a Cow<'_, str>) -> (r: &'a str) ensures r@ == c@ { unimplemented!() }
} // verus!
