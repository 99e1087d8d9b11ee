// C17: summarize diff
//@include _base.vx
//@include _time.vx
//@include _text.vx
use vstd::std_specs::ops::SubSpecImpl;
use std::cmp::Ordering;
fn main() {}
//@grw std :: f64 :: INFINITY ==> vx_infinity ( )
//@grw f64 :: INFINITY ==> vx_infinity ( )
//@grw - 100.0 ==> vx_minus_hundred ( )
//@grw 100.0 ==> vx_hundred ( )
//@grw $x:recv . as_nanos ( ) as f64 ==> vx_f64 ( $x . as_nanos ( ) )
//@grw $x:id as f64 ==> vx_f64_signed ( $x as i128 )
//@grw f64 ==> VxF64
//@grw FxHashMap < & str , usize > ==> TextMap < usize >
//@grw FxHashMap :: with_capacity_and_hasher ( $$n , Default :: default ( ) ) ==> TextMap :: vx_with_capacity ( $n )
//@grw FxHashMap :: with_capacity_and_hasher ( $$n , Default :: default ( ) , ) ==> TextMap :: vx_with_capacity ( $n )
//@grw FxHashMap :: default ( ) ==> TextMap :: vx_with_capacity ( 0 )
//@grw FxHashSet :: with_capacity_and_hasher ( $$n , Default :: default ( ) ) ==> TextSet :: vx_with_capacity ( $n )
//@grw FxHashSet :: with_capacity_and_hasher ( $$n , Default :: default ( ) , ) ==> TextSet :: vx_with_capacity ( $n )
//@grw FxHashSet :: default ( ) ==> TextSet :: vx_with_capacity ( 0 )
//@grw HashSet :: new ( ) ==> TextSet :: vx_with_capacity ( 0 )
//@grw & $x:place . label [ .. ] ==> $x . label . as_str ( )
//@grw $m:recv . get ( $l:id ) . map ( | $i:id | $$e ) ==> ( match $m . get ( $l ) { Some ( $i ) => Some ( $e ) , None => None } )
//@grw unreachable ! ( ) ==> vx_never ( )
//@grw for ( $i:id , $d:id ) in $x:recv . iter ( ) . enumerate ( ) $inv $body ==> { let mut vx_i : usize = 0 ; while vx_i < $x . len ( ) $inv { let $i = vx_i ; let $d = & $x [ vx_i ] ; vx_i += 1 ; $body } }
//@grw $x:recv . iter ( ) . chain ( $$y ) ==> vx_chain ( & $x , $y )
//@include _f64.vx
verus! {
pub uninterp spec fn infinity() -> VxF64;
#[verifier::external_body]
pub fn vx_infinity() -> (r: VxF64) ensures r == infinity() { unimplemented!() }
#[verifier::external_body]
pub fn vx_minus_hundred() -> (r: VxF64) ensures r == float(-100) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_signed(n: i128) -> (r: VxF64) ensures r == float(n as int) { unimplemented!() }
/// i128::abs
#[verifier::external_body]
pub fn vx_abs(n: i128) -> (r: i128) requires n != i128::MIN, ensures r == (if n >= 0 { n as int } else { -n }) { unimplemented!() }
/// FxHashMap<&str, V>
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct TextMap<V> { v: core::marker::PhantomData<V> }
impl<V> View for TextMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> TextMap<V> {
    #[verifier::external_body]
    pub fn vx_with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>) ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }) { unimplemented!() }
}
/// FxHashSet<&str> / HashSet<&str>
#[verifier::external_body]
pub struct TextSet { x: u8 }
impl View for TextSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
impl TextSet {
    #[verifier::external_body]
    pub fn vx_with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    /// iter(): every element once, in some order
    #[verifier::external_body]
    pub fn vx_items(&self) -> (r: Vec<&str>)
        ensures texts(r@).no_duplicates(), texts(r@).to_set() == self@
    { unimplemented!() }
}
pub open spec fn chained<'a, T>(a: Seq<T>, b: Seq<T>, r: Seq<&'a T>) -> bool {
    r.len() == a.len() + b.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == (a + b)[i]
}
/// a.iter().chain(b)
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: Vec<&'a T>) ensures chained(a@, b@, r@) { unimplemented!() }
/// p rearranges 0..n
pub open spec fn rearranges(p: Seq<int>, n: nat) -> bool {
    p.len() == n && p.no_duplicates() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j))
}
/// slice::sort_by with a comparison by the integer key k
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, Ghost(k): Ghost<spec_fn(T) -> int>, f: F)
    requires
        forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == cmp_int(k(*a), k(*b)),
    ensures
        exists|p: Seq<int>| #[trigger] rearranges(p, old(v)@.len()) && final(v)@ == p.map_values(|i: int| old(v)@[i]),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> k(#[trigger] final(v)@[i]) <= k(#[trigger] final(v)@[j]),
{ unimplemented!() }

//@item analyzeme/src/analysis.rs :: struct QueryData
//@end
//@item analyzeme/src/analysis.rs :: struct ArtifactSize
//@end
//@item analyzeme/src/analysis.rs :: struct AnalysisResults
//@end
//@item summarize/src/diff.rs :: struct SignedDuration
//@derive Clone, Copy
//@end
//@item summarize/src/diff.rs :: struct QueryDataDiff
//@end
//@item summarize/src/diff.rs :: struct ArtifactSizeDiff
//@end
//@item summarize/src/diff.rs :: struct DiffResults
//@end
impl Clone for QueryData {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.label@ == self.label@, qv(r) == qv(*self) { unimplemented!() }
}
impl Clone for ArtifactSize {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.label@ == self.label@, r.value == self.value { unimplemented!() }
}

// ---- what a diff must be ---------------------------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct QV { pub time: int, pub own: int, pub misses: int, pub hits: int, pub invocations: int, pub blocked: int, pub load: int, pub hashing: int }
pub open spec fn qv(d: QueryData) -> QV {
    QV { time: d.time@ as int, own: d.self_time@ as int, misses: d.number_of_cache_misses as int, hits: d.number_of_cache_hits as int,
        invocations: d.invocation_count as int, blocked: d.blocked_time@ as int, load: d.incremental_load_time@ as int, hashing: d.incremental_hashing_time@ as int }
}
pub open spec fn q_zero() -> QV { QV { time: 0, own: 0, misses: 0, hits: 0, invocations: 0, blocked: 0, load: 0, hashing: 0 } }
pub open spec fn minus(a: QV, b: QV) -> QV {
    QV { time: a.time - b.time, own: a.own - b.own, misses: a.misses - b.misses, hits: a.hits - b.hits, invocations: a.invocations - b.invocations,
        blocked: a.blocked - b.blocked, load: a.load - b.load, hashing: a.hashing - b.hashing }
}
pub open spec fn nanos(d: SignedDuration) -> int { if d.is_positive { d.duration@ as int } else { -d.duration@ } }
pub open spec fn dv(d: QueryDataDiff) -> QV {
    QV { time: nanos(d.time), own: nanos(d.self_time), misses: d.number_of_cache_misses as int, hits: d.number_of_cache_hits as int,
        invocations: d.invocation_count as int, blocked: nanos(d.blocked_time), load: nanos(d.incremental_load_time), hashing: nanos(d.incremental_hashing_time) }
}
/// the change as a percentage of the base
pub open spec fn pct(base: int, change: int) -> VxF64 { fmul(fdiv(float(change - base), float(base)), float(100)) }
pub open spec fn pcts(d: QueryDataDiff) -> (VxF64, VxF64) { (d.time_change, d.self_time_change) }
/// nothing to something: infinite, something to nothing: -100 %
pub open spec fn q_pcts(b: Seq<QueryData>, c: Seq<QueryData>, l: Seq<char>) -> (VxF64, VxF64) {
    if !q_labels(b).contains(l) { (infinity(), infinity()) }
    else if !q_labels(c).contains(l) { (float(-100), float(-100)) }
    else { (pct(q_of(b, l).time, q_of(c, l).time), pct(q_of(b, l).own, q_of(c, l).own)) }
}
pub open spec fn abs(n: int) -> int { if n < 0 { -n } else { n } }
/// times below 2^64 ns, counts that fit the signed counts of the diff
pub open spec fn q_fits(d: QueryData) -> bool {
    &&& d.time@ <= u64::MAX && d.self_time@ <= u64::MAX && d.blocked_time@ <= u64::MAX && d.incremental_load_time@ <= u64::MAX && d.incremental_hashing_time@ <= u64::MAX
    &&& d.number_of_cache_misses <= i64::MAX && d.number_of_cache_hits <= i64::MAX && d.invocation_count <= i64::MAX
}
pub open spec fn q_labels(v: Seq<QueryData>) -> Seq<Seq<char>> { v.map_values(|d: QueryData| d.label@) }
pub open spec fn a_labels(v: Seq<ArtifactSize>) -> Seq<Seq<char>> { v.map_values(|d: ArtifactSize| d.label@) }
pub open spec fn pos(ls: Seq<Seq<char>>, l: Seq<char>) -> int { choose|i: int| 0 <= i < ls.len() && ls[i] == l }
/// what the summary has for the label; nothing counts as zero
pub open spec fn q_of(v: Seq<QueryData>, l: Seq<char>) -> QV { if q_labels(v).contains(l) { qv(v[pos(q_labels(v), l)]) } else { q_zero() } }
pub open spec fn a_of(v: Seq<ArtifactSize>, l: Seq<char>) -> int { if a_labels(v).contains(l) { v[pos(a_labels(v), l)].value as int } else { 0 } }
pub open spec fn summary_ok(r: AnalysisResults) -> bool {
    &&& q_labels(r.query_data@).no_duplicates() && a_labels(r.artifact_sizes@).no_duplicates()
    &&& forall|i: int| 0 <= i < r.query_data@.len() ==> q_fits(#[trigger] r.query_data@[i])
    &&& forall|i: int| 0 <= i < r.artifact_sizes@.len() ==> (#[trigger] r.artifact_sizes@[i]).value <= i64::MAX
    &&& r.total_time@ <= u64::MAX
}
pub open spec fn d_labels(v: Seq<QueryDataDiff>) -> Seq<Seq<char>> { v.map_values(|d: QueryDataDiff| d.label@) }
pub open spec fn e_labels(v: Seq<ArtifactSizeDiff>) -> Seq<Seq<char>> { v.map_values(|d: ArtifactSizeDiff| d.label@) }
pub open spec fn q_diffed(b: Seq<QueryData>, c: Seq<QueryData>, r: Seq<QueryDataDiff>) -> bool {
    &&& d_labels(r).no_duplicates()
    &&& d_labels(r).to_set() == q_labels(b).to_set().union(q_labels(c).to_set())
    &&& forall|i: int| 0 <= i < r.len() ==> dv(#[trigger] r[i]) == minus(q_of(c, r[i].label@), q_of(b, r[i].label@)) && pcts(r[i]) == q_pcts(b, c, r[i].label@)
}
pub open spec fn a_diffed(b: Seq<ArtifactSize>, c: Seq<ArtifactSize>, r: Seq<ArtifactSizeDiff>) -> bool {
    &&& e_labels(r).no_duplicates()
    &&& e_labels(r).to_set() == a_labels(b).to_set().union(a_labels(c).to_set())
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).size_change == a_of(c, r[i].label@) - a_of(b, r[i].label@)
}
pub open spec fn q_ordered(r: Seq<QueryDataDiff>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> abs(dv(#[trigger] r[i]).own) >= abs(dv(#[trigger] r[j]).own) }
pub open spec fn a_ordered(r: Seq<ArtifactSizeDiff>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).size_change >= (#[trigger] r[j]).size_change }

// ---- signed durations ------------------------------------------------------------------------------------------------------
impl SignedDuration {
//@item summarize/src/diff.rs :: impl SignedDuration :: fn as_nanos
//@ret r
//@spec
    requires self.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
    ensures r == nanos(*self), //# C17
//@end
//@item summarize/src/diff.rs :: impl SignedDuration :: fn from_nanos
//@ret r
//@rw $x:recv . abs ( ) ==> vx_abs ( $x )
//@spec
    requires -0xffff_ffff_ffff_ffff <= nanos <= 0xffff_ffff_ffff_ffff,
    ensures nanos_of(r) == nanos, r == vx_signed(nanos as int), //# C17
//@end
//@item summarize/src/diff.rs :: impl Ord for SignedDuration :: fn cmp
//@ret r
//@spec
    requires self.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, other.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
    ensures r == cmp_int(nanos(*self), nanos(*other)), //# C17
//@end
//@item summarize/src/diff.rs :: impl PartialOrd for SignedDuration :: fn partial_cmp
//@ret r
//@spec
    requires self.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, other.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
    ensures r == Some(cmp_int(nanos(*self), nanos(*other))), //# C17
//@end
}
/// the difference, with its sign
pub open spec fn vx_signed(n: int) -> SignedDuration { SignedDuration { duration: dur(abs(n) as nat), is_positive: n >= 0 } }
pub open spec fn nanos_of(d: SignedDuration) -> int { nanos(d) }
impl FromSpecImpl<Duration> for SignedDuration {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: Duration) -> Self { SignedDuration { duration: d, is_positive: true } }
}
impl From<Duration> for SignedDuration {
//@item summarize/src/diff.rs :: impl From<Duration> for SignedDuration :: fn from
//@nopub
//@ret r
//@spec
    ensures r == (SignedDuration { duration: d, is_positive: true }), //# C17
//@end
}
impl SubSpecImpl<SignedDuration> for SignedDuration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: SignedDuration) -> bool {
        &&& self.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff && rhs.duration@ <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff
        &&& -0xffff_ffff_ffff_ffff <= nanos(self) - nanos(rhs) <= 0xffff_ffff_ffff_ffff
    }
    open spec fn sub_spec(self, rhs: SignedDuration) -> SignedDuration { vx_signed(nanos(self) - nanos(rhs)) }
}
impl core::ops::Sub for SignedDuration {
    type Output = SignedDuration;
//@item summarize/src/diff.rs :: impl std::ops::Sub for SignedDuration :: fn sub
//@nopub
//@ret r
//@spec
    ensures r == vx_signed(nanos(self) - nanos(rhs)), //# C17
//@end
}

// ---- one label -------------------------------------------------------------------------------------------------------------
//@item summarize/src/diff.rs :: fn calculate_diff :: fn sd
//@ret r
//@spec
    ensures r == (SignedDuration { duration: d, is_positive: true }), //# C17
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn sub :: fn sd
//@name vx_sd
//@ret r
//@spec
    ensures r == (SignedDuration { duration: d, is_positive: true }), //# C17
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn sub :: fn i
//@ret r
//@spec
    requires u <= i64::MAX,
    ensures r == u, //# C17
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn sub :: fn percentage_change
//@ret r
//@spec
    requires base@ <= u64::MAX, change@ <= u64::MAX,
    ensures r == pct(base@ as int, change@ as int), //# C17
//@start
    broadcast use {axiom_fadd, axiom_fmul};
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn invert_query_data :: fn invert
//@ret r
//@spec
    ensures r == (SignedDuration { duration: d, is_positive: false }), //# C17
//@end
impl QueryDataDiff {
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn sub
//@ret r
//@rw fn sd $p -> SignedDuration $body ==> 
//@rw fn i $p -> i64 $body ==> 
//@rw fn percentage_change $p -> f64 $body ==> 
//@rw sd $p ==> vx_sd $p
//@spec
    requires q_fits(lhs), q_fits(rhs),
    ensures r.label@ == lhs.label@, dv(r) == minus(qv(lhs), qv(rhs)), //# C17
        r.time_change == pct(rhs.time@ as int, lhs.time@ as int) && r.self_time_change == pct(rhs.self_time@ as int, lhs.self_time@ as int), //# C17
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn invert_query_data
//@ret r
//@rw fn invert $p -> SignedDuration $body ==> 
//@spec
    requires q_fits(*data),
    ensures r.label@ == data.label@, dv(r) == minus(q_zero(), qv(*data)), pcts(r) == (float(-100), float(-100)), //# C17
//@end
//@item summarize/src/diff.rs :: impl QueryDataDiff :: fn query_data_as_diff
//@ret r
//@spec
    requires q_fits(*data),
    ensures r.label@ == data.label@, dv(r) == minus(qv(*data), q_zero()), pcts(r) == (infinity(), infinity()), //# C17
//@end
}
impl ArtifactSizeDiff {
//@item summarize/src/diff.rs :: impl ArtifactSizeDiff :: fn invert_artifact_size
//@ret r
//@spec
    requires size.value <= i64::MAX,
    ensures r.label@ == size.label@, r.size_change == -size.value, //# C17
//@end
//@item summarize/src/diff.rs :: impl ArtifactSizeDiff :: fn artifact_size_as_diff
//@ret r
//@spec
    requires size.value <= i64::MAX,
    ensures r.label@ == size.label@, r.size_change == size.value, //# C17
//@end
//@item summarize/src/diff.rs :: impl ArtifactSizeDiff :: fn sub
//@ret r
//@spec
    requires lhs.value <= i64::MAX, rhs.value <= i64::MAX,
    ensures r.label@ == lhs.label@, r.size_change == lhs.value - rhs.value, //# C17
//@end
}

// ---- both sides ------------------------------------------------------------------------------------------------------------
/// m has the position of every label
pub open spec fn locates(ls: Seq<Seq<char>>, m: Map<Seq<char>, usize>) -> bool {
    &&& forall|l: Seq<char>| #[trigger] m.dom().contains(l) <==> ls.contains(l)
    &&& forall|l: Seq<char>| #[trigger] m.dom().contains(l) ==> m[l] < ls.len() && ls[m[l] as int] == l
}
proof fn lemma_locates_step(ls: Seq<Seq<char>>, m: Map<Seq<char>, usize>, i: usize)
    requires i < ls.len(), ls.no_duplicates(), locates(ls.take(i as int), m),
    ensures locates(ls.take(i + 1), m.insert(ls[i as int], i)),
{
    let a = ls.take(i as int);
    let b = ls.take(i + 1);
    assert(b =~= a.push(ls[i as int]));
    let n = m.insert(ls[i as int], i);
    assert forall|l: Seq<char>| #[trigger] n.dom().contains(l) <==> b.contains(l) by {
        if a.contains(l) { let j = a.index_of(l); assert(b[j] == l); }
        if l == ls[i as int] { assert(b[i as int] == l); }
        if b.contains(l) && l != ls[i as int] { let j = b.index_of(l); assert(a[j] == l); }
    }
}
/// positions are unique
proof fn lemma_locates(ls: Seq<Seq<char>>, m: Map<Seq<char>, usize>, l: Seq<char>)
    requires ls.no_duplicates(), locates(ls, m), ls.contains(l),
    ensures m.dom().contains(l), m[l] == pos(ls, l), 0 <= m[l] < ls.len(), ls[m[l] as int] == l,
{ assert(m.dom().contains(l)); assert(ls[m[l] as int] == l); }
proof fn lemma_to_set_push(s: Seq<Seq<char>>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).to_set() =~= s.take(i).to_set().insert(s[i]),
{
    let a = s.take(i);
    let b = s.take(i + 1);
    assert(b =~= a.push(s[i]));
    assert forall|l: Seq<char>| b.contains(l) <==> a.contains(l) || l == s[i] by {
        if a.contains(l) { let j = choose|j: int| 0 <= j < a.len() && a[j] == l; assert(b[j] == l); }
        if l == s[i] { assert(b[i] == l); }
        if b.contains(l) && l != s[i] { let j = choose|j: int| 0 <= j < b.len() && b[j] == l; assert(a[j] == l); }
    }
}
proof fn lemma_take_all<A>(s: Seq<A>) ensures s.take(s.len() as int) =~= s { }
/// the labels of both sides
proof fn lemma_both(b: Seq<Seq<char>>, c: Seq<Seq<char>>)
    ensures (b + c).to_set() =~= b.to_set().union(c.to_set()),
{
    let u = b + c;
    assert forall|l: Seq<char>| u.contains(l) <==> b.contains(l) || c.contains(l) by {
        if b.contains(l) { let j = choose|j: int| 0 <= j < b.len() && b[j] == l; assert(u[j] == l); }
        if c.contains(l) { let j = choose|j: int| 0 <= j < c.len() && c[j] == l; assert(u[b.len() + j] == l); }
        if u.contains(l) { let j = choose|j: int| 0 <= j < u.len() && u[j] == l; if j < b.len() { assert(b[j] == l); } else { assert(c[j - b.len()] == l); } }
    }
}
proof fn lemma_rearranged(a: Seq<Seq<char>>, r: Seq<Seq<char>>, p: Seq<int>)
    requires a.no_duplicates(), rearranges(p, a.len()), r =~= p.map_values(|i: int| a[i]),
    ensures r.no_duplicates(), r.to_set() =~= a.to_set(),
{
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(p[i] != p[j]); }
    assert forall|l: Seq<char>| r.contains(l) <==> a.contains(l) by {
        if r.contains(l) { let i = choose|i: int| 0 <= i < r.len() && r[i] == l; assert(a[p[i]] == l); }
        if a.contains(l) { let j = choose|j: int| 0 <= j < a.len() && a[j] == l; assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(r[i] == l); }
    }
}
//@item summarize/src/diff.rs :: fn build_query_lookup
//@ret r
//@spec
    requires q_labels(query_data@).no_duplicates(),
    ensures locates(q_labels(query_data@), r@), //# C17
//@loop 0
    invariant vx_i <= query_data@.len(), q_labels(query_data@).no_duplicates(), locates(q_labels(query_data@).take(vx_i as int), lookup@), //# C17
    decreases query_data@.len() - vx_i
//@loopstart 0
    proof { lemma_locates_step(q_labels(query_data@), lookup@, (vx_i - 1) as usize); }
//@tail vx_r
    proof { assert(q_labels(query_data@).take(query_data@.len() as int) =~= q_labels(query_data@)); }
//@end
//@item summarize/src/diff.rs :: fn build_artifact_lookup
//@ret r
//@spec
    requires a_labels(artifact_sizes@).no_duplicates(),
    ensures locates(a_labels(artifact_sizes@), r@), //# C17
//@loop 0
    invariant vx_i <= artifact_sizes@.len(), a_labels(artifact_sizes@).no_duplicates(), locates(a_labels(artifact_sizes@).take(vx_i as int), lookup@), //# C17
    decreases artifact_sizes@.len() - vx_i
//@loopstart 0
    proof { lemma_locates_step(a_labels(artifact_sizes@), lookup@, (vx_i - 1) as usize); }
//@tail vx_r
    proof { assert(a_labels(artifact_sizes@).take(artifact_sizes@.len() as int) =~= a_labels(artifact_sizes@)); }
//@end

/// the entries made for the first n labels
pub open spec fn q_part(b: Seq<QueryData>, c: Seq<QueryData>, r: Seq<QueryDataDiff>, ls: Seq<Seq<char>>, n: int) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).label@ == ls[i] && dv(r[i]) == minus(q_of(c, ls[i]), q_of(b, ls[i])) && pcts(r[i]) == q_pcts(b, c, ls[i])
}
pub open spec fn a_part(b: Seq<ArtifactSize>, c: Seq<ArtifactSize>, r: Seq<ArtifactSizeDiff>, ls: Seq<Seq<char>>, n: int) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).label@ == ls[i] && r[i].size_change == a_of(c, ls[i]) - a_of(b, ls[i])
}
pub open spec fn key_own() -> spec_fn(QueryDataDiff) -> int { |d: QueryDataDiff| -abs(dv(d).own) }
pub open spec fn key_size() -> spec_fn(ArtifactSizeDiff) -> int { |d: ArtifactSizeDiff| -d.size_change }
proof fn lemma_q_chain(b: Seq<QueryData>, c: Seq<QueryData>, r: Seq<&QueryData>)
    requires chained(b, c, r),
    ensures q_labels(b) + q_labels(c) =~= q_refs(r),
{ }
proof fn lemma_a_chain(b: Seq<ArtifactSize>, c: Seq<ArtifactSize>, r: Seq<&ArtifactSize>)
    requires chained(b, c, r),
    ensures a_labels(b) + a_labels(c) =~= a_refs(r),
{ }
/// all labels of both sides
pub open spec fn q_all(b: Seq<QueryData>, c: Seq<QueryData>) -> Seq<Seq<char>> { q_labels(b) + q_labels(c) }
pub open spec fn a_all(b: Seq<ArtifactSize>, c: Seq<ArtifactSize>) -> Seq<Seq<char>> { a_labels(b) + a_labels(c) }
proof fn lemma_q_sorted(b: Seq<QueryData>, c: Seq<QueryData>, ls: Seq<Seq<char>>, a: Seq<QueryDataDiff>, r: Seq<QueryDataDiff>)
    requires
        q_part(b, c, a, ls, ls.len() as int), ls.no_duplicates(), ls.to_set() == q_labels(b).to_set().union(q_labels(c).to_set()),
        exists|p: Seq<int>| #[trigger] rearranges(p, a.len()) && r == p.map_values(|i: int| a[i]),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> key_own()(#[trigger] r[i]) <= key_own()(#[trigger] r[j]),
    ensures q_diffed(b, c, r), q_ordered(r),
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, a.len()) && r == p.map_values(|i: int| a[i]);
    assert(d_labels(a) =~= ls);
    lemma_rearranged(d_labels(a), d_labels(r), p);
    assert forall|i: int| 0 <= i < r.len() implies dv(#[trigger] r[i]) == minus(q_of(c, r[i].label@), q_of(b, r[i].label@)) && pcts(r[i]) == q_pcts(b, c, r[i].label@) by { assert(r[i] == a[p[i]]); assert(a[p[i]].label@ == ls[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies abs(dv(#[trigger] r[i]).own) >= abs(dv(#[trigger] r[j]).own) by { assert(key_own()(r[i]) <= key_own()(r[j])); }
}
proof fn lemma_a_sorted(b: Seq<ArtifactSize>, c: Seq<ArtifactSize>, ls: Seq<Seq<char>>, a: Seq<ArtifactSizeDiff>, r: Seq<ArtifactSizeDiff>)
    requires
        a_part(b, c, a, ls, ls.len() as int), ls.no_duplicates(), ls.to_set() == a_labels(b).to_set().union(a_labels(c).to_set()),
        exists|p: Seq<int>| #[trigger] rearranges(p, a.len()) && r == p.map_values(|i: int| a[i]),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> key_size()(#[trigger] r[i]) <= key_size()(#[trigger] r[j]),
    ensures a_diffed(b, c, r), a_ordered(r),
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, a.len()) && r == p.map_values(|i: int| a[i]);
    assert(e_labels(a) =~= ls);
    lemma_rearranged(e_labels(a), e_labels(r), p);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).size_change == a_of(c, r[i].label@) - a_of(b, r[i].label@) by { assert(r[i] == a[p[i]]); assert(a[p[i]].label@ == ls[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).size_change >= (#[trigger] r[j]).size_change by { assert(key_size()(r[i]) <= key_size()(r[j])); }
}
/// the entry of the label: which sides have it
proof fn lemma_q_entry(v: Seq<QueryData>, m: Map<Seq<char>, usize>, l: Seq<char>)
    requires locates(q_labels(v), m), q_labels(v).no_duplicates(),
    ensures m.dom().contains(l) == q_labels(v).contains(l), m.dom().contains(l) ==> m[l] < v.len() && q_of(v, l) == qv(v[m[l] as int]) && v[m[l] as int].label@ == l,
        !m.dom().contains(l) ==> q_of(v, l) == q_zero(),
{ if q_labels(v).contains(l) { lemma_locates(q_labels(v), m, l); } }
proof fn lemma_a_entry(v: Seq<ArtifactSize>, m: Map<Seq<char>, usize>, l: Seq<char>)
    requires locates(a_labels(v), m), a_labels(v).no_duplicates(),
    ensures m.dom().contains(l) == a_labels(v).contains(l), m.dom().contains(l) ==> m[l] < v.len() && a_of(v, l) == v[m[l] as int].value && v[m[l] as int].label@ == l,
        !m.dom().contains(l) ==> a_of(v, l) == 0,
{ if a_labels(v).contains(l) { lemma_locates(a_labels(v), m, l); } }
pub open spec fn q_refs(v: Seq<&QueryData>) -> Seq<Seq<char>> { v.map_values(|d: &QueryData| d.label@) }
pub open spec fn a_refs(v: Seq<&ArtifactSize>) -> Seq<Seq<char>> { v.map_values(|d: &ArtifactSize| d.label@) }
//@item summarize/src/diff.rs :: fn calculate_diff
//@ret r
//@rw fn sd $p -> SignedDuration $body ==> 
//@rw query_data : Vec < _ > = $x:recv . iter ( ) . map ( | $l:id | $body ) . collect ( ) ; ==> query_data : Vec < QueryDataDiff > = Vec :: new ( ) ; proof { lemma_take_all(q_all(base.query_data@, change.query_data@)); } let vx_it = $x . vx_items ( ) ; let ghost vx_ls = texts ( vx_it @ ) ; for $l in it : vx_it invariant summary_ok(base), summary_ok(change), locates(q_labels(base.query_data@), base_data@), locates(q_labels(change.query_data@), change_data@), texts(it.seq()).no_duplicates(), texts(it.seq()).to_set() == q_all(base.query_data@, change.query_data@).to_set(), vx_ls == texts(it.seq()), q_part(base.query_data@, change.query_data@, query_data@, texts(it.seq()), it.index@), { proof { lemma_q_entry(base.query_data@, base_data@, $l@); lemma_q_entry(change.query_data@, change_data@, $l@); lemma_both(q_labels(base.query_data@), q_labels(change.query_data@)); assert(texts(it.seq()).to_set().contains(texts(it.seq())[it.index@])); } let vx_e = $body ; query_data . push ( vx_e ) ; }
//@rw artifact_sizes : Vec < _ > = $x:recv . iter ( ) . map ( | $l:id | $body ) . collect ( ) ; ==> artifact_sizes : Vec < ArtifactSizeDiff > = Vec :: new ( ) ; proof { lemma_take_all(a_all(base.artifact_sizes@, change.artifact_sizes@)); } let vx_it = $x . vx_items ( ) ; let ghost vx_ls = texts ( vx_it @ ) ; for $l in it : vx_it invariant summary_ok(base), summary_ok(change), locates(a_labels(base.artifact_sizes@), base_data@), locates(a_labels(change.artifact_sizes@), change_data@), texts(it.seq()).no_duplicates(), texts(it.seq()).to_set() == a_all(base.artifact_sizes@, change.artifact_sizes@).to_set(), vx_ls == texts(it.seq()), a_part(base.artifact_sizes@, change.artifact_sizes@, artifact_sizes@, texts(it.seq()), it.index@), { proof { lemma_a_entry(base.artifact_sizes@, base_data@, $l@); lemma_a_entry(change.artifact_sizes@, change_data@, $l@); lemma_both(a_labels(base.artifact_sizes@), a_labels(change.artifact_sizes@)); assert(texts(it.seq()).to_set().contains(texts(it.seq())[it.index@])); } let vx_e = $body ; artifact_sizes . push ( vx_e ) ; }
//@rw let all_labels = $x:recv . iter ( ) . chain ( $$y ) . map ( | $a:id | $$e ) . collect :: < HashSet < _ >> ( ) ; ==> let mut all_labels = TextSet :: vx_with_capacity ( 0 ) ; for $a in it : vx_chain ( & $x , $y ) invariant chained(base.artifact_sizes@, change.artifact_sizes@, it.seq()), all_labels@ == a_all(base.artifact_sizes@, change.artifact_sizes@).take(it.index@).to_set(), { proof { lemma_a_chain(base.artifact_sizes@, change.artifact_sizes@, it.seq()); lemma_to_set_push(a_refs(it.seq()), it.index@); } all_labels . insert ( $e ) ; }
//@rw query_data . sort_by ( | $a:id , $b:id | $$e ) ==> vx_sort_by ( & mut query_data , Ghost ( key_own ( ) ) , | $a : & QueryDataDiff , $b : & QueryDataDiff | -> ( o : Ordering ) ensures o == cmp_int ( key_own ( ) ( * $a ) , key_own ( ) ( * $b ) ) { $e } )
//@rw artifact_sizes . sort_by ( | $a:id , $b:id | $$e ) ==> vx_sort_by ( & mut artifact_sizes , Ghost ( key_size ( ) ) , | $a : & ArtifactSizeDiff , $b : & ArtifactSizeDiff | -> ( o : Ordering ) ensures o == cmp_int ( key_size ( ) ( * $a ) , key_size ( ) ( * $b ) ) { $e } )
//@spec
    requires
        summary_ok(base), summary_ok(change),
        base.query_data@.len() + change.query_data@.len() <= usize::MAX,
    ensures
        q_diffed(base.query_data@, change.query_data@, r.query_data@), //# C17
        q_ordered(r.query_data@), //# C17
        a_diffed(base.artifact_sizes@, change.artifact_sizes@, r.artifact_sizes@), //# C17
        a_ordered(r.artifact_sizes@), //# C17
        nanos(r.total_time) == change.total_time@ - base.total_time@, //# C17
//@before query_data . sort_by
    proof { lemma_both(q_labels(base.query_data@), q_labels(change.query_data@)); }
    let ghost vx_q0 = query_data@;
    let ghost vx_ql = d_labels(vx_q0);
    proof { assert(vx_ql =~= vx_ls); }
//@after query_data . sort_by
    proof { lemma_q_sorted(base.query_data@, change.query_data@, vx_ql, vx_q0, query_data@); }
//@before artifact_sizes . sort_by
    proof { lemma_both(a_labels(base.artifact_sizes@), a_labels(change.artifact_sizes@)); }
    let ghost vx_a0 = artifact_sizes@;
    let ghost vx_al = e_labels(vx_a0);
    proof { assert(vx_al =~= vx_ls); }
//@after artifact_sizes . sort_by
    proof { lemma_a_sorted(base.artifact_sizes@, change.artifact_sizes@, vx_al, vx_a0, artifact_sizes@); }
//@loopbind 0 it
//@loop 0
    invariant
        chained(base.query_data@, change.query_data@, it.seq()),
        all_labels@ == q_all(base.query_data@, change.query_data@).take(it.index@).to_set(), //# C17
//@loopstart 0
    proof { lemma_q_chain(base.query_data@, change.query_data@, it.seq()); lemma_to_set_push(q_refs(it.seq()), it.index@); }
//@end
} // verus!
