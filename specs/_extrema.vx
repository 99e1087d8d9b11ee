// Extrema: the k smallest and largest values with the number of insertions (needs cmp_int)
//@grw std :: ops :: RangeInclusive < $$t > ==> VxRange < $t >
//@grw $x:recv . entry ( $$k ) . or_default ( ) ==> $x . vx_entry_or_insert ( $k , ExtremaSources :: default ( ) )
//@grw $x:recv . keys ( ) . rev ( ) . next ( ) . copied ( ) . unwrap ( ) ==> $x . vx_last_key ( )
//@grw $x:recv . keys ( ) . next_back ( ) . copied ( ) . unwrap ( ) ==> $x . vx_last_key ( )
//@grw * $x:recv . keys ( ) . next_back ( ) . unwrap ( ) ==> $x . vx_last_key ( )
//@grw $x:recv . keys ( ) . next ( ) . copied ( ) . unwrap ( ) ==> $x . vx_first_key ( )
//@grw * $x:recv . keys ( ) . next ( ) . unwrap ( ) ==> $x . vx_first_key ( )
//@grw ( $$a ..= $$b , $$s ) ==> ( vx_range ( $a , $b ) , $s )
verus! {
/// std::ops::RangeInclusive
pub struct VxRange<T> { pub a: T, pub b: T }
impl<T> VxRange<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &T) ensures *r == self.b { &self.b }
}
pub fn vx_range<T>(a: T, b: T) -> (r: VxRange<T>) ensures r.a == a, r.b == b { VxRange { a, b } }

/// the order of T, as integers: every total order on finitely many values can be written like this
pub uninterp spec fn key<T>(t: T) -> int;
pub open spec fn ordered<T: Ord>() -> bool {
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #![trigger a.partial_cmp_spec(&b)] a.partial_cmp_spec(&b) == Some(cmp_int(key(a), key(b)))
    &&& forall|a: T, b: T| #[trigger] key(a) == #[trigger] key(b) ==> a == b
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// std::collections::BTreeMap
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { v }),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k)
    { unimplemented!() }
    /// the greatest key; panics if there is none
    #[verifier::external_body]
    pub fn vx_last_key(&self) -> (r: K)
        requires self@.dom().len() > 0
        ensures self@.dom().contains(r), forall|k: K| #[trigger] self@.dom().contains(k) ==> key(k) <= key(r)
    { unimplemented!() }
    /// the smallest key; panics if there is none
    #[verifier::external_body]
    pub fn vx_first_key(&self) -> (r: K)
        requires self@.dom().len() > 0
        ensures self@.dom().contains(r), forall|k: K| #[trigger] self@.dom().contains(k) ==> key(r) <= key(k)
    { unimplemented!() }
}
//@item summarize/src/aggregate.rs :: struct Extrema
//@attr #[verifier::reject_recursive_types(T)]
//@end
//@item summarize/src/aggregate.rs :: enum ExtremaSources
//@end
//@item summarize/src/aggregate.rs :: impl Extrema<T, S> :: fn add_range :: enum Which
//@end

// ---- what a table must hold ------------------------------------------------------------------------------------------------
/// number of insertions of the value
pub open spec fn times<T, S>(h: Seq<(T, S)>, v: T) -> nat
    decreases h.len()
{ if h.len() == 0 { 0 } else { times(h.drop_last(), v) + (if h.last().0 == v { 1nat } else { 0 }) } }
/// the source of an insertion of the value
pub open spec fn from<T, S: Clone>(h: Seq<(T, S)>, v: T, s: S) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 == v && cloned(h[i].1, s) }
pub open spec fn count_of<S>(e: ExtremaSources<S>) -> nat { match e { ExtremaSources::Empty => 0, ExtremaSources::One(_) => 1, ExtremaSources::Count(n) => n as nat } }
pub open spec fn source_ok<T, S: Clone>(h: Seq<(T, S)>, v: T, e: ExtremaSources<S>) -> bool {
    &&& count_of(e) == times(h, v)
    &&& times(h, v) == 1 ==> (e matches ExtremaSources::One(s) && from(h, v, s))
}
/// a is more extreme than b: smaller when the table is for the smallest
pub open spec fn before<T>(small: bool, a: T, b: T) -> bool { if small { key(a) < key(b) } else { key(a) > key(b) } }
/// the table holds the `limit` most extreme values inserted, or all of them, each with its number of insertions
pub open spec fn table<T, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>) -> bool {
    &&& m.dom().len() <= limit
    &&& forall|v: T| #[trigger] m.dom().contains(v) ==> times(h, v) > 0 && source_ok(h, v, m[v])
    &&& m.dom().len() < limit ==> forall|v: T| times(h, v) > 0 ==> #[trigger] m.dom().contains(v)
    &&& forall|v: T, w: T| #[trigger] m.dom().contains(v) && times(h, w) > 0 && !(#[trigger] m.dom().contains(w)) ==> before(small, v, w)
}
/// one more insertion
proof fn lemma_x_kept<T: Ord, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, v: T, s: S, e: ExtremaSources<S>)
    requires
        table(small, limit, m, h), h.push((v, s)).last() == (v, s),
        m.dom().contains(v) || m.dom().len() < limit,
        source_ok(h.push((v, s)), v, e),
    ensures table(small, limit, m.insert(v, e), h.push((v, s))),
{
    let n = m.insert(v, e);
    let g = h.push((v, s));
    lemma_x_times(h, v, s);
    assert forall|w: T| #[trigger] n.dom().contains(w) implies times(g, w) > 0 && source_ok(g, w, n[w]) by { lemma_times_of(h, v, s, w); if w != v { assert(m.dom().contains(w)); lemma_from(h, v, s, w, n[w]); } }
    assert forall|w: T| times(g, w) > 0 && n.dom().len() < limit implies #[trigger] n.dom().contains(w) by { lemma_times_of(h, v, s, w); if w != v { assert(m.dom().contains(w)); } }
    assert forall|a: T, w: T| #[trigger] n.dom().contains(a) && times(g, w) > 0 && !(#[trigger] n.dom().contains(w)) implies before(small, a, w) by {
        lemma_times_of(h, v, s, w);
        assert(!m.dom().contains(w));
        if m.dom().len() < limit { assert(m.dom().contains(w)); }
        if a != v { assert(m.dom().contains(a)); } else { assert(m.dom().contains(v)); }
    }
}
proof fn lemma_x_times<T, S: Clone>(h: Seq<(T, S)>, v: T, s: S)
    ensures h.push((v, s)).drop_last() =~= h, h.push((v, s)).last() == (v, s), times(h.push((v, s)), v) == times(h, v) + 1,
{ }
proof fn lemma_times_of<T, S: Clone>(h: Seq<(T, S)>, v: T, s: S, w: T)
    ensures times(h.push((v, s)), w) == times(h, w) + (if w == v { 1nat } else { 0 }),
{ lemma_x_times(h, v, s); }
proof fn lemma_from<T, S: Clone>(h: Seq<(T, S)>, v: T, s: S, w: T, e: ExtremaSources<S>)
    requires v != w, source_ok(h, w, e),
    ensures source_ok(h.push((v, s)), w, e),
{
    lemma_times_of(h, v, s, w);
    let g = h.push((v, s));
    if times(h, w) == 1 {
        if let ExtremaSources::One(x) = e { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 == w && cloned(h[i].1, x); assert(g[i] == h[i]); }
    }
}
/// a value less extreme than everything in the full table
proof fn lemma_ignored<T: Ord, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, v: T, s: S)
    requires
        table(small, limit, m, h), m.dom().len() == limit,
        forall|w: T| #[trigger] m.dom().contains(w) ==> before(small, w, v),
    ensures table(small, limit, m, h.push((v, s))),
{
    let g = h.push((v, s));
    assert forall|w: T| #[trigger] m.dom().contains(w) implies times(g, w) > 0 && source_ok(g, w, m[w]) by { lemma_times_of(h, v, s, w); lemma_from(h, v, s, w, m[w]); }
    assert forall|a: T, w: T| #[trigger] m.dom().contains(a) && times(g, w) > 0 && !(#[trigger] m.dom().contains(w)) implies before(small, a, w) by { lemma_times_of(h, v, s, w); }
}
/// a new value that displaces the least_key extreme one
proof fn lemma_displaced<T: Ord, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, v: T, s: S, e: ExtremaSources<S>, out: T)
    requires
        ordered::<T>(),
        table(small, limit, m, h), m.dom().len() == limit, !m.dom().contains(v), m.dom().contains(out), before(small, v, out),
        forall|w: T| #[trigger] m.dom().contains(w) ==> w == out || before(small, w, out),
        source_ok(h.push((v, s)), v, e),
    ensures table(small, limit, m.insert(v, e).remove(out), h.push((v, s))), m.insert(v, e).remove(out).dom().len() == limit, m.insert(v, e).dom().len() == limit + 1,
{
    let n = m.insert(v, e).remove(out);
    let g = h.push((v, s));
    assert forall|w: T| #[trigger] n.dom().contains(w) implies times(g, w) > 0 && source_ok(g, w, n[w]) by {
        lemma_times_of(h, v, s, w);
        if w != v { assert(m.dom().contains(w)); lemma_from(h, v, s, w, n[w]); }
    }
    assert forall|a: T, w: T| #[trigger] n.dom().contains(a) && times(g, w) > 0 && !(#[trigger] n.dom().contains(w)) implies before(small, a, w) by {
        lemma_times_of(h, v, s, w);
        if a != v { assert(m.dom().contains(a)); }
        if w != out { assert(!m.dom().contains(w)); assert(before(small, out, w)); }
    }
}
/// the least_key extreme value of the table
pub open spec fn is_least_key<T, V>(small: bool, m: Map<T, V>, k: T) -> bool { m.dom().contains(k) && forall|w: T| #[trigger] m.dom().contains(w) ==> w == k || before(small, w, k) }
pub open spec fn least_key<T, V>(small: bool, m: Map<T, V>) -> T { choose|k: T| is_least_key(small, m, k) }
/// what the entry of v becomes
pub open spec fn counted<T, S: Clone>(m0: Map<T, ExtremaSources<S>>, e: ExtremaSources<S>, v: T, s: S) -> bool {
    if m0.dom().contains(v) { count_of(e) == count_of(m0[v]) + 1 } else { e matches ExtremaSources::One(x) && cloned(s, x) }
}
/// one insertion into a table
pub open spec fn step<T, S: Clone>(small: bool, limit: nat, m0: Map<T, ExtremaSources<S>>, m1: Map<T, ExtremaSources<S>>, v: T, s: S) -> bool {
    if m0.dom().contains(v) || m0.dom().len() < limit { m1 == m0.insert(v, m1[v]) && counted(m0, m1[v], v, s) }
    else if before(small, v, least_key(small, m0)) { m1 == m0.insert(v, m1[v]).remove(least_key(small, m0)) && counted(m0, m1[v], v, s) }
    else { m1 == m0 }
}
proof fn lemma_x_ready<T: Ord, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, v: T)
    requires ordered::<T>(), table(small, limit, m, h), limit > 0,
    ensures
        forall|k: T| #[trigger] m.dom().contains(k) ==> count_of(m[k]) <= h.len(),
        forall|e: ExtremaSources<S>| (#[trigger] m.insert(v, e)).dom().len() == m.dom().len() + (if m.dom().contains(v) { 0nat } else { 1 }),
        forall|e: ExtremaSources<S>, k: T| m.dom().contains(k) && k != v ==> (#[trigger] m.insert(v, e).remove(k)).dom().len() + 1 == m.insert(v, e).dom().len(),
        forall|k: T| #[trigger] m.dom().contains(k) && (forall|w: T| #[trigger] m.dom().contains(w) ==> (if small { key(w) <= key(k) } else { key(w) >= key(k) })) ==> k == least_key(small, m),
{
    assert forall|k: T| #[trigger] m.dom().contains(k) implies count_of(m[k]) <= h.len() by { lemma_times_max(h, k); }
    assert forall|e: ExtremaSources<S>| (#[trigger] m.insert(v, e)).dom().len() == m.dom().len() + (if m.dom().contains(v) { 0nat } else { 1 }) by { assert(m.insert(v, e).dom() =~= m.dom().insert(v)); }
    assert forall|e: ExtremaSources<S>, k: T| m.dom().contains(k) && k != v implies (#[trigger] m.insert(v, e).remove(k)).dom().len() + 1 == m.insert(v, e).dom().len() by {
        assert(m.insert(v, e).remove(k).dom() =~= m.insert(v, e).dom().remove(k)); assert(m.insert(v, e).dom().contains(k));
    }
    assert forall|k: T| #[trigger] m.dom().contains(k) && (forall|w: T| #[trigger] m.dom().contains(w) ==> (if small { key(w) <= key(k) } else { key(w) >= key(k) })) implies k == least_key(small, m) by {
        assert forall|w: T| #[trigger] m.dom().contains(w) implies w == k || before(small, w, k) by { assert(key(w) == key(k) ==> w == k); }
        assert(is_least_key(small, m, k));
        let l = least_key(small, m);
        assert(is_least_key(small, m, l));
        assert(m.dom().contains(l));
    }
}
proof fn lemma_times_max<T, S>(h: Seq<(T, S)>, v: T)
    ensures times(h, v) <= h.len(),
    decreases h.len()
{ if h.len() > 0 { lemma_times_max(h.drop_last(), v); } }
proof fn lemma_counted<T: Ord, S: Clone>(small: bool, limit: nat, m: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, e: ExtremaSources<S>, v: T, s: S)
    requires table(small, limit, m, h), counted(m, e, v, s), m.dom().contains(v) || times(h, v) == 0,
    ensures source_ok(h.push((v, s)), v, e),
{
    lemma_times_of(h, v, s, v);
    assert(h.push((v, s))[h.len() as int] == (v, s));
}
proof fn lemma_step<T: Ord, S: Clone>(small: bool, limit: nat, m0: Map<T, ExtremaSources<S>>, m1: Map<T, ExtremaSources<S>>, h: Seq<(T, S)>, v: T, s: S)
    requires
        ordered::<T>(), table(small, limit, m0, h), limit > 0, step(small, limit, m0, m1, v, s),
        m0.dom().len() == limit && !m0.dom().contains(v) ==> is_least_key(small, m0, least_key(small, m0)),
    ensures table(small, limit, m1, h.push((v, s))),
{
    lemma_x_times(h, v, s);
    let l = least_key(small, m0);
    if m0.dom().contains(v) || m0.dom().len() < limit {
        if times(h, v) > 0 { assert(m0.dom().contains(v)); }
        lemma_counted(small, limit, m0, h, m1[v], v, s);
        lemma_x_kept(small, limit, m0, h, v, s, m1[v]);
    } else if before(small, v, l) {
        assert(m0.dom().contains(l));
        if times(h, v) > 0 { assert(before(small, l, v)); }
        lemma_counted(small, limit, m0, h, m1[v], v, s);
        lemma_displaced(small, limit, m0, h, v, s, m1[v], l);
    } else {
        assert forall|w: T| #[trigger] m0.dom().contains(w) implies before(small, w, v) by { assert(key(v) == key(l) ==> v == l); }
        lemma_ignored(small, limit, m0, h, v, s);
    }
}
//@item summarize/src/aggregate.rs :: impl Default for ExtremaSources<S> :: fn default
//@name vx_default
//@ret r
//@retty ExtremaSources<S>
//@generics <S>
//@spec
    ensures r == ExtremaSources::<S>::Empty, //# C18
//@end
impl<S> ExtremaSources<S> { pub fn default() -> (r: Self) ensures r == ExtremaSources::<S>::Empty { vx_default() } }
impl<S: Clone> ExtremaSources<S> {
//@item summarize/src/aggregate.rs :: impl ExtremaSources<S> :: fn count
//@ret r
//@spec
    ensures r == count_of(*self), //# C18
//@end
//@item summarize/src/aggregate.rs :: impl ExtremaSources<S> :: fn add
//@spec
    requires count_of(*old(self)) < usize::MAX,
    ensures
        count_of(*final(self)) == count_of(*old(self)) + 1, //# C18
        *old(self) is Empty ==> (*final(self) matches ExtremaSources::One(s) && cloned(*source, s)), //# C18
//@end
}
impl<T: Copy + Ord, S: Clone> Extrema<T, S> {
//@item summarize/src/aggregate.rs :: impl Extrema<T, S> :: fn new
//@ret r
//@spec
    ensures
        r.limit == limit,
        table(true, limit as nat, r.smallest@, Seq::<(T, S)>::empty()), //# C18
        table(false, limit as nat, r.largest@, Seq::<(T, S)>::empty()), //# C18
//@end
//@item summarize/src/aggregate.rs :: impl Extrema<T, S> :: fn add_range
//@params Ghost(hs): Ghost<Seq<(T, S)>>, Ghost(hl): Ghost<Seq<(T, S)>>
//@rw enum Which $body ==> 
//@rw for $w:id in & [ $$a , $$b ] $body ==> { let $w = & $a ; $body } { let $w = & $b ; $body }
//@rw let ( $m:id , & $v:id ) = $$e ; ==> let ( $m , vx_v ) = $e ; let $v = * vx_v ;
//@spec
    requires
        ordered::<T>(), old(self).limit > 0, hs.len() < usize::MAX, hl.len() < usize::MAX,
        table(true, old(self).limit as nat, old(self).smallest@, hs),
        table(false, old(self).limit as nat, old(self).largest@, hl),
    ensures
        final(self).limit == old(self).limit,
        table(true, old(self).limit as nat, final(self).smallest@, hs.push((range.a, *source))), //# C18
        table(false, old(self).limit as nat, final(self).largest@, hl.push((range.b, *source))), //# C18
//@loopstart 0
    let ghost sm0 = self.smallest@;
    let ghost la0 = self.largest@;
    proof { if which is Smallest { lemma_x_ready(true, self.limit as nat, sm0, hs, range.a); } else { lemma_x_ready(false, self.limit as nat, la0, hl, range.b); } }
//@loopend 0
    proof {
        if which is Smallest { lemma_step(true, self.limit as nat, sm0, self.smallest@, hs, range.a, *source); }
        else { lemma_step(false, self.limit as nat, la0, self.largest@, hl, range.b, *source); }
    }
//@end
//@item summarize/src/aggregate.rs :: impl Extrema<T, S> :: fn add
//@params Ghost(hs): Ghost<Seq<(T, S)>>, Ghost(hl): Ghost<Seq<(T, S)>>
//@rw self . add_range ( $$a ) ==> self . add_range ( $a , Ghost ( hs ) , Ghost ( hl ) )
//@spec
    requires
        ordered::<T>(), old(self).limit > 0, hs.len() < usize::MAX, hl.len() < usize::MAX,
        table(true, old(self).limit as nat, old(self).smallest@, hs),
        table(false, old(self).limit as nat, old(self).largest@, hl),
    ensures
        final(self).limit == old(self).limit,
        table(true, old(self).limit as nat, final(self).smallest@, hs.push((value, *source))), //# C18
        table(false, old(self).limit as nat, final(self).largest@, hl.push((value, *source))), //# C18
//@end
}
} // verus!
