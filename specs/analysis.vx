// C14, C16: perform_analysis
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fxmap.vx
//@include _rawopaque.vx
//@include _payload.vx contracts payload
//@include _event.vx contracts payload
//@include _nest.vx
//@include _profdata.vx
//@include _kinds.vx
//@include _maps.vx
fn main() {}
//@grw $x:recv . map_or ( $$d , | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => $d } )
//@grw $x:recv . is_some_and ( | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => false } )
//@grw FxHashMap :: < String , QueryData > ==> StrMap :: < QueryData >
//@grw FxHashMap < String , QueryData > ==> StrMap < QueryData >
//@grw HashMap :: < String , QueryData > ==> StrMap :: < QueryData >
//@grw BTreeMap :: < Cow < '_ , str > , ArtifactSize > ==> TextTree :: < ArtifactSize >
//@grw BTreeMap :: < _ , ArtifactSize > ==> TextTree :: < ArtifactSize >
//@grw $x:recv . get_mut ( & $l:id [ .. ] ) ==> $x . get_mut ( vx_cow_str ( $l ) )
//@grw $x:recv . drain ( ) . map ( | ( _ , $v:id ) | $v ) . collect ( ) ==> $x . vx_values ( )
//@grw $x:recv . into_values ( ) . collect ( ) ==> $x . vx_values ( )
verus! {
//@item analyzeme/src/analysis.rs :: struct QueryData
//@end
impl QueryData {
    /// derived
    #[verifier::external_body]
    pub fn default() -> (r: QueryData)
        ensures r.label@ == Seq::<char>::empty(), qv(r) == q_zero()
    { unimplemented!() }
//@item analyzeme/src/analysis.rs :: impl QueryData :: fn new
//@ret r
//@spec
    ensures r.label@ == label@, qv(r) == q_zero(), //# C14
//@end
}
//@item analyzeme/src/analysis.rs :: struct ArtifactSize
//@end
impl ArtifactSize {
//@item analyzeme/src/analysis.rs :: impl ArtifactSize :: fn new
//@ret r
//@spec
    ensures r.label@ == label@, r.value == 0, //# C16
//@end
//@item analyzeme/src/analysis.rs :: impl ArtifactSize :: fn add_value
//@spec
    requires old(self).value + value <= u64::MAX,
    ensures final(self).label == old(self).label, final(self).value == old(self).value + value, //# C16
//@end
}
//@item analyzeme/src/analysis.rs :: struct AnalysisResults
//@end
//@item analyzeme/src/analysis.rs :: impl ProfilingData :: fn perform_analysis :: struct PerThreadState
//@end

// ---- what the numbers of a label must be -----------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct QV { pub time: int, pub own: int, pub misses: int, pub hits: int, pub invocations: int, pub blocked: int, pub load: int, pub hashing: int }
pub open spec fn qv(d: QueryData) -> QV {
    QV { time: d.time@ as int, own: d.self_time@ as int, misses: d.number_of_cache_misses as int, hits: d.number_of_cache_hits as int,
         invocations: d.invocation_count as int, blocked: d.blocked_time@ as int, load: d.incremental_load_time@ as int, hashing: d.incremental_hashing_time@ as int }
}
pub open spec fn q_zero() -> QV { QV { time: 0, own: 0, misses: 0, hits: 0, invocations: 0, blocked: 0, load: 0, hashing: 0 } }
pub open spec fn is_hit(e: EventV) -> bool { (e.payload matches EventPayload::Timestamp(Timestamp::Instant(_))) && code(e.kind) == QUERY_CACHE_HIT_EVENT_KIND }
pub open spec fn p_label(s: Seq<EventV>, l: Seq<char>) -> Pred { |i: int| s[i].label == l }
pub open spec fn p_kind(s: Seq<EventV>, l: Seq<char>, k: u32) -> Pred { |i: int| s[i].label == l && code(s[i].kind) == k }
/// hashing happens within the query and is not added to its time
pub open spec fn p_time(s: Seq<EventV>, l: Seq<char>) -> Pred { |i: int| s[i].label == l && code(s[i].kind) != INCREMENTAL_RESULT_HASHING_EVENT_KIND }
pub open spec fn p_hit(s: Seq<EventV>, l: Seq<char>) -> Pred { |i: int| s[i].label == l && is_hit(s[i]) }
pub open spec fn p_miss(s: Seq<EventV>, l: Seq<char>) -> Pred {
    |i: int| s[i].label == l && iv(s[i]) && (code(s[i].kind) == QUERY_EVENT_KIND || code(s[i].kind) == GENERIC_ACTIVITY_EVENT_KIND)
}
pub open spec fn p_invoked(s: Seq<EventV>, l: Seq<char>) -> Pred {
    |i: int| s[i].label == l && (is_hit(s[i]) || (iv(s[i]) && code(s[i].kind) != INCREMENTAL_LOAD_RESULT_EVENT_KIND && code(s[i].kind) != INCREMENTAL_RESULT_HASHING_EVENT_KIND))
}
pub open spec fn expected(s: Seq<EventV>, l: Seq<char>, m: int) -> QV {
    QV {
        time: own(s, p_time(s, l), m),
        own: own(s, p_label(s, l), m) - kids(s, p_label(s, l), m),
        misses: count(s, p_miss(s, l), m),
        hits: count(s, p_hit(s, l), m),
        invocations: count(s, p_invoked(s, l), m),
        blocked: own(s, p_kind(s, l, QUERY_BLOCKED_EVENT_KIND), m),
        load: own(s, p_kind(s, l, INCREMENTAL_LOAD_RESULT_EVENT_KIND), m) - kids(s, p_kind(s, l, INCREMENTAL_LOAD_RESULT_EVENT_KIND), m),
        hashing: own(s, p_kind(s, l, INCREMENTAL_RESULT_HASHING_EVENT_KIND), m) - kids(s, p_kind(s, l, INCREMENTAL_RESULT_HASHING_EVENT_KIND), m),
    }
}
pub open spec fn counts(e: EventV) -> bool { iv(e) || is_hit(e) }
/// some event of the label contributes
pub open spec fn has(s: Seq<EventV>, l: Seq<char>, m: int) -> bool { exists|i: int| m <= i < s.len() && (#[trigger] s[i]).label == l && counts(s[i]) }
pub open spec fn is_size(e: EventV) -> bool { e.payload is Integer && code(e.kind) == ARTIFACT_SIZE_EVENT_KIND }
pub open spec fn size_of_event(e: EventV) -> int { match e.payload { EventPayload::Integer(v) => v as int, _ => 0 } }
pub open spec fn asum(s: Seq<EventV>, l: Seq<char>, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { 0 } else { (if is_size(s[m]) && s[m].label == l { size_of_event(s[m]) } else { 0 }) + asum(s, l, m + 1) } }
pub open spec fn sized(s: Seq<EventV>, l: Seq<char>, m: int) -> bool { exists|i: int| m <= i < s.len() && is_size(#[trigger] s[i]) && s[i].label == l }
pub proof fn lemma_asum_mono(s: Seq<EventV>, l: Seq<char>, m: int)
    requires 0 <= m,
    ensures 0 <= asum(s, l, m) <= asum(s, l, 0),
    decreases m
{
    lemma_asum_pos(s, l, m);
    if m > 0 { lemma_asum_mono(s, l, m - 1); lemma_asum_pos(s, l, m - 1); }
}
pub proof fn lemma_asum_pos(s: Seq<EventV>, l: Seq<char>, m: int)
    ensures 0 <= asum(s, l, m),
    decreases s.len() - m
{ if m < s.len() { lemma_asum_pos(s, l, m + 1); } }

/// effect of one event on the numbers of label l
pub open spec fn gain(e: EventV, l: Seq<char>) -> QV {
    if e.label != l { q_zero() }
    else if is_hit(e) { QV { hits: 1, invocations: 1, ..q_zero() } }
    else if !iv(e) { q_zero() }
    else if code(e.kind) == QUERY_EVENT_KIND || code(e.kind) == GENERIC_ACTIVITY_EVENT_KIND { QV { own: ln(e), time: ln(e), misses: 1, invocations: 1, ..q_zero() } }
    else if code(e.kind) == QUERY_BLOCKED_EVENT_KIND { QV { own: ln(e), time: ln(e), blocked: ln(e), invocations: 1, ..q_zero() } }
    else if code(e.kind) == INCREMENTAL_LOAD_RESULT_EVENT_KIND { QV { own: ln(e), time: ln(e), load: ln(e), ..q_zero() } }
    else if code(e.kind) == INCREMENTAL_RESULT_HASHING_EVENT_KIND { QV { own: ln(e), hashing: ln(e), ..q_zero() } }
    else { QV { own: ln(e), time: ln(e), invocations: 1, ..q_zero() } }
}
/// effect of a direct child of duration d on the numbers of its parent's label
pub open spec fn loss(p: EventV, d: int, l: Seq<char>) -> QV {
    if p.label != l { q_zero() }
    else if code(p.kind) == INCREMENTAL_LOAD_RESULT_EVENT_KIND { QV { own: -d, load: -d, ..q_zero() } }
    else if code(p.kind) == INCREMENTAL_RESULT_HASHING_EVENT_KIND { QV { own: -d, hashing: -d, ..q_zero() } }
    else { QV { own: -d, ..q_zero() } }
}
pub open spec fn q_add(a: QV, b: QV) -> QV {
    QV { time: a.time + b.time, own: a.own + b.own, misses: a.misses + b.misses, hits: a.hits + b.hits, invocations: a.invocations + b.invocations,
         blocked: a.blocked + b.blocked, load: a.load + b.load, hashing: a.hashing + b.hashing }
}
pub open spec fn parent_loss(s: Seq<EventV>, m: int, l: Seq<char>) -> QV {
    if !iv(s[m]) { q_zero() } else { match parent(s, m) { Some(p) => loss(s[p], ln(s[m]), l), None => q_zero() } }
}
pub proof fn lemma_expected_step(s: Seq<EventV>, l: Seq<char>, m: int)
    requires 0 <= m < s.len(),
    ensures expected(s, l, m) == q_add(q_add(expected(s, l, m + 1), parent_loss(s, m, l)), gain(s[m], l)), //# C14
{
    lemma_parent_from(s, m, m + 1);
}
/// the numbers never become negative
pub proof fn lemma_expected_room(s: Seq<EventV>, m: int)
    requires nested(s), 0 <= m < s.len(), iv(s[m]), parent(s, m) is Some,
    ensures ({
        let p = s[parent(s, m)->Some_0];
        let x = expected(s, p.label, m + 1);
        &&& x.own >= ln(s[m])
        &&& code(p.kind) == INCREMENTAL_LOAD_RESULT_EVENT_KIND ==> x.load >= ln(s[m])
        &&& code(p.kind) == INCREMENTAL_RESULT_HASHING_EVENT_KIND ==> x.hashing >= ln(s[m])
    })
{
    let p = s[parent(s, m)->Some_0];
    lemma_room(s, p_label(s, p.label), m);
    if code(p.kind) == INCREMENTAL_LOAD_RESULT_EVENT_KIND { lemma_room(s, p_kind(s, p.label, INCREMENTAL_LOAD_RESULT_EVENT_KIND), m); }
    if code(p.kind) == INCREMENTAL_RESULT_HASHING_EVENT_KIND { lemma_room(s, p_kind(s, p.label, INCREMENTAL_RESULT_HASHING_EVENT_KIND), m); }
}
pub open spec fn q_get(q: Map<Seq<char>, QueryData>, l: Seq<char>) -> QV { if q.dom().contains(l) { qv(q[l]) } else { q_zero() } }
pub open spec fn inv_query(s: Seq<EventV>, q: Map<Seq<char>, QueryData>, m: int) -> bool {
    &&& forall|l: Seq<char>| #[trigger] q_get(q, l) == expected(s, l, m)
    &&& forall|l: Seq<char>| #[trigger] q.dom().contains(l) <==> has(s, l, m)
    &&& forall|l: Seq<char>| #[trigger] q.dom().contains(l) ==> q[l].label@ == l
}
pub open spec fn a_get(a: Map<Seq<char>, ArtifactSize>, l: Seq<char>) -> int { if a.dom().contains(l) { a[l].value as int } else { 0 } }
pub open spec fn inv_sizes(s: Seq<EventV>, a: Map<Seq<char>, ArtifactSize>, m: int) -> bool {
    &&& forall|l: Seq<char>| #[trigger] a_get(a, l) == asum(s, l, m)
    &&& forall|l: Seq<char>| #[trigger] a.dom().contains(l) <==> sized(s, l, m)
    &&& forall|l: Seq<char>| #[trigger] a.dom().contains(l) ==> a[l].label@ == l
}
pub open spec fn stack_is(s: Seq<EventV>, v: Seq<Event<'_>>, g: Seq<int>) -> bool {
    v.len() == g.len() && forall|j: int| 0 <= j < g.len() ==> ev(#[trigger] v[j]) == s[g[j]]
}
pub open spec fn thread_ok(s: Seq<EventV>, t: u32, x: PerThreadState<'_>, g: Seq<int>, m: int) -> bool {
    &&& stack_is(s, x.stack@, g)
    &&& stack_ok(s, t, g, m, m)
    &&& span(s, t, m) == Some((x.start@, x.end@))
}
pub open spec fn inv_threads(s: Seq<EventV>, ts: Map<u32, PerThreadState<'_>>, gs: Map<u32, Seq<int>>, m: int) -> bool {
    &&& forall|t: u32| #[trigger] ts.dom().contains(t) ==> thread_ok(s, t, ts[t], gs[t], m)
    &&& forall|t: u32| #[trigger] ts.dom().contains(t) <==> span(s, t, m) is Some
}
pub open spec fn tsum_upto(s: Seq<EventV>, ts: Map<u32, PerThreadState<'_>>, n: int) -> int { tsum(s, vx_key_order(ts).take(n)) }
pub open spec fn analysed(s: Seq<EventV>, r: AnalysisResults) -> bool {
    &&& forall|i: int| 0 <= i < r.query_data@.len() ==> has(s, (#[trigger] r.query_data@[i]).label@, 0) && qv(r.query_data@[i]) == expected(s, r.query_data@[i].label@, 0)
    &&& forall|i: int, j: int| 0 <= i < j < r.query_data@.len() ==> (#[trigger] r.query_data@[i]).label@ != (#[trigger] r.query_data@[j]).label@
    &&& forall|l: Seq<char>| #[trigger] has(s, l, 0) ==> exists|i: int| 0 <= i < r.query_data@.len() && (#[trigger] r.query_data@[i]).label@ == l
}
pub open spec fn total_ok(s: Seq<EventV>, r: AnalysisResults) -> bool { forall|ts: Seq<u32>| #[trigger] thread_list(s, ts) ==> r.total_time@ == tsum(s, ts) }
pub open spec fn sizes_ok(s: Seq<EventV>, r: AnalysisResults) -> bool {
    &&& forall|i: int| 0 <= i < r.artifact_sizes@.len() ==> sized(s, (#[trigger] r.artifact_sizes@[i]).label@, 0) && r.artifact_sizes@[i].value == asum(s, r.artifact_sizes@[i].label@, 0)
    &&& forall|i: int, j: int| 0 <= i < j < r.artifact_sizes@.len() ==> text_lt((#[trigger] r.artifact_sizes@[i]).label@, (#[trigger] r.artifact_sizes@[j]).label@)
    &&& forall|l: Seq<char>| #[trigger] sized(s, l, 0) ==> exists|i: int| 0 <= i < r.artifact_sizes@.len() && (#[trigger] r.artifact_sizes@[i]).label@ == l
}

proof fn lemma_start(s: Seq<EventV>)
    ensures inv_query(s, Map::empty(), s.len() as int), inv_sizes(s, Map::empty(), s.len() as int),
        inv_threads(s, Map::empty(), Map::empty(), s.len() as int),
{}
proof fn lemma_query_step(s: Seq<EventV>, q0: Map<Seq<char>, QueryData>, q: Map<Seq<char>, QueryData>, m: int)
    requires
        0 <= m < s.len(), inv_query(s, q0, m + 1),
        forall|l: Seq<char>| #[trigger] q_get(q, l) == q_add(q_add(q_get(q0, l), parent_loss(s, m, l)), gain(s[m], l)),
        forall|l: Seq<char>| #[trigger] q.dom().contains(l) <==> q0.dom().contains(l) || (counts(s[m]) && l == s[m].label),
        forall|l: Seq<char>| #[trigger] q.dom().contains(l) ==> q[l].label@ == l,
    ensures inv_query(s, q, m),
{
    assert forall|l: Seq<char>| #[trigger] q_get(q, l) == expected(s, l, m) by {
        lemma_expected_step(s, l, m);
        assert(q_get(q0, l) == expected(s, l, m + 1));
    }
    assert forall|l: Seq<char>| #[trigger] q.dom().contains(l) <==> has(s, l, m) by {
        if has(s, l, m + 1) { let i = choose|i: int| m + 1 <= i < s.len() && (#[trigger] s[i]).label == l && counts(s[i]); assert(m <= i); }
        assert(q0.dom().contains(l) <==> has(s, l, m + 1));
    }
}
proof fn lemma_sizes_step(s: Seq<EventV>, a0: Map<Seq<char>, ArtifactSize>, a: Map<Seq<char>, ArtifactSize>, m: int)
    requires
        0 <= m < s.len(), inv_sizes(s, a0, m + 1),
        forall|l: Seq<char>| #[trigger] a_get(a, l) == a_get(a0, l) + (if is_size(s[m]) && s[m].label == l { size_of_event(s[m]) } else { 0 }),
        forall|l: Seq<char>| #[trigger] a.dom().contains(l) <==> a0.dom().contains(l) || (is_size(s[m]) && l == s[m].label),
        forall|l: Seq<char>| #[trigger] a.dom().contains(l) ==> a[l].label@ == l,
    ensures inv_sizes(s, a, m),
{
    assert forall|l: Seq<char>| #[trigger] a_get(a, l) == asum(s, l, m) by {
        assert(a_get(a0, l) == asum(s, l, m + 1));
    }
    assert forall|l: Seq<char>| #[trigger] a.dom().contains(l) <==> sized(s, l, m) by {
        if sized(s, l, m + 1) { let i = choose|i: int| m + 1 <= i < s.len() && is_size(#[trigger] s[i]) && s[i].label == l; assert(m <= i); }
        assert(a0.dom().contains(l) <==> sized(s, l, m + 1));
    }
}
proof fn lemma_stack_begin(s: Seq<EventV>, t0: Map<u32, PerThreadState<'_>>, gs: Map<u32, Seq<int>>, m: int, g: Seq<int>)
    requires nested(s), 0 <= m < s.len(), inv_threads(s, t0, gs, m + 1), iv(s[m]),
        g == (if t0.dom().contains(s[m].thread) { gs[s[m].thread] } else { Seq::<int>::empty() }),
    ensures stack_ok(s, s[m].thread, g, m + 1, m),
{
    let t = s[m].thread;
    if t0.dom().contains(t) {
        assert(thread_ok(s, t, t0[t], gs[t], m + 1));
        lemma_stack_weaken(s, t, g, m + 1, m + 1);
    } else {
        lemma_span(s, t, m + 1);
    }
}
proof fn lemma_threads_step(s: Seq<EventV>, t0: Map<u32, PerThreadState<'_>>, ts: Map<u32, PerThreadState<'_>>, g0: Map<u32, Seq<int>>, gs: Map<u32, Seq<int>>, m: int)
    requires
        nested(s), 0 <= m < s.len(), inv_threads(s, t0, g0, m + 1),
        !iv(s[m]) ==> ts == t0 && gs == g0,
        iv(s[m]) ==> ({
            let t = s[m].thread;
            &&& ts == t0.insert(t, ts[t])
            &&& gs == g0.insert(t, gs[t])
            &&& stack_is(s, ts[t].stack@, gs[t])
            &&& gs[t].len() > 0 && gs[t].last() == m
            &&& stack_ok(s, t, gs[t].drop_last(), m + 1, m)
            &&& Some((ts[t].start@, ts[t].end@)) == join(Some((st(s[m]), en(s[m]))), if t0.dom().contains(t) { Some((t0[t].start@, t0[t].end@)) } else { None })
        }),
    ensures inv_threads(s, ts, gs, m),
{
    assert forall|t: u32| #[trigger] ts.dom().contains(t) implies thread_ok(s, t, ts[t], gs[t], m) by {
        if iv(s[m]) && t == s[m].thread {
            lemma_stack_push(s, t, gs[t].drop_last(), m);
            assert(gs[t].drop_last().push(m) =~= gs[t]);
            if t0.dom().contains(t) { assert(thread_ok(s, t, t0[t], g0[t], m + 1)); }
        } else {
            assert(t0.dom().contains(t));
            assert(thread_ok(s, t, t0[t], g0[t], m + 1));
            lemma_stack_skip(s, t, g0[t], m);
        }
    }
    assert forall|t: u32| #[trigger] ts.dom().contains(t) <==> span(s, t, m) is Some by {
        assert(t0.dom().contains(t) <==> span(s, t, m + 1) is Some);
    }
}
proof fn lemma_sum_step(s: Seq<EventV>, ts: Map<u32, PerThreadState<'_>>, gs: Map<u32, Seq<int>>, i: int)
    requires nested(s), inv_threads(s, ts, gs, 0), 0 <= i < vx_key_order(ts).len(),
    ensures ({
        let x = ts[vx_key_order(ts)[i]];
        x.start@ <= x.end@ && tsum_upto(s, ts, i + 1) == tsum_upto(s, ts, i) + (x.end@ - x.start@)
    })
{
    let k = vx_key_order(ts);
    axiom_key_order(ts);
    assert(k.contains(k[i]));
    assert(ts.dom().contains(k[i]));
    assert(thread_ok(s, k[i], ts[k[i]], gs[k[i]], 0));
    lemma_span(s, k[i], 0);
    assert(k.take(i + 1).drop_last() =~= k.take(i));
}
proof fn lemma_total(s: Seq<EventV>, ts: Map<u32, PerThreadState<'_>>, gs: Map<u32, Seq<int>>, total: int)
    requires inv_threads(s, ts, gs, 0), total == tsum_upto(s, ts, vx_key_order(ts).len() as int),
    ensures forall|l: Seq<u32>| #[trigger] thread_list(s, l) ==> total == tsum(s, l),
{
    let k = vx_key_order(ts);
    axiom_key_order(ts);
    assert(k.take(k.len() as int) =~= k);
    assert forall|l: Seq<u32>| #[trigger] thread_list(s, l) implies total == tsum(s, l) by {
        assert forall|t: u32| k.contains(t) <==> l.contains(t) by {
            assert(ts.dom().contains(t) <==> span(s, t, 0) is Some);
            assert(k.contains(t) <==> ts.dom().contains(t));
        }
        lemma_tsum_any(s, k, l);
    }
}
proof fn lemma_listed(s: Seq<EventV>, q: Map<Seq<char>, QueryData>, v: Seq<QueryData>)
    requires inv_query(s, q, 0), values_in_order(q, v),
    ensures
        forall|i: int| 0 <= i < v.len() ==> has(s, (#[trigger] v[i]).label@, 0) && qv(v[i]) == expected(s, v[i].label@, 0),
        forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).label@ != (#[trigger] v[j]).label@,
        forall|l: Seq<char>| #[trigger] has(s, l, 0) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).label@ == l,
{
    let k = vx_key_order(q);
    axiom_key_order(q);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == q[k[i]] && q.dom().contains(k[i]) && v[i].label@ == k[i] by { assert(k.contains(k[i])); }
    assert forall|i: int| 0 <= i < v.len() implies has(s, (#[trigger] v[i]).label@, 0) && qv(v[i]) == expected(s, v[i].label@, 0) by {
        assert(q_get(q, k[i]) == expected(s, k[i], 0));
    }
    assert forall|l: Seq<char>| #[trigger] has(s, l, 0) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).label@ == l by {
        assert(q.dom().contains(l));
        assert(k.contains(l));
        let i = choose|i: int| 0 <= i < k.len() && k[i] == l;
        assert(v[i].label@ == l);
    }
}
proof fn lemma_sizes_listed(s: Seq<EventV>, a: Map<Seq<char>, ArtifactSize>, v: Seq<ArtifactSize>)
    requires inv_sizes(s, a, 0), values_in_order(a, v), ascending(vx_key_order(a)),
    ensures
        forall|i: int| 0 <= i < v.len() ==> sized(s, (#[trigger] v[i]).label@, 0) && v[i].value == asum(s, v[i].label@, 0),
        forall|i: int, j: int| 0 <= i < j < v.len() ==> text_lt((#[trigger] v[i]).label@, (#[trigger] v[j]).label@),
        forall|l: Seq<char>| #[trigger] sized(s, l, 0) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).label@ == l,
{
    let k = vx_key_order(a);
    axiom_key_order(a);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == a[k[i]] && a.dom().contains(k[i]) && v[i].label@ == k[i] by { assert(k.contains(k[i])); }
    assert forall|i: int| 0 <= i < v.len() implies sized(s, (#[trigger] v[i]).label@, 0) && v[i].value == asum(s, v[i].label@, 0) by {
        assert(a_get(a, k[i]) == asum(s, k[i], 0));
    }
    assert forall|l: Seq<char>| #[trigger] sized(s, l, 0) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).label@ == l by {
        assert(a.dom().contains(l));
        assert(k.contains(l));
        let i = choose|i: int| 0 <= i < k.len() && k[i] == l;
        assert(v[i].label@ == l);
    }
}
impl ProfilingData {
//@item analyzeme/src/analysis.rs :: impl ProfilingData :: fn perform_analysis
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@spec
    requires
        nested(self.events()),
        self.events().len() <= usize::MAX,
        forall|l: Seq<char>| asum(self.events(), l, 0) <= u64::MAX,
    ensures
        analysed(self.events(), r), //# C14
        total_ok(self.events(), r), //# C14
        sizes_ok(self.events(), r), //# C16
//@inlineclosure record_event_data
//@rw struct PerThreadState < 'a > { $$x } ==> 
//@rw struct PerThreadState < 'a > { } ==> 
//@rw $x:recv . values ( ) . map ( | $t:id | $$e ) . sum ( ) ==> { let ghost vx_m = $x @ ; let vx_ts = $x . vx_values ( ) ; let mut vx_sum = Duration :: from_nanos ( 0 ) ; let mut vx_i : usize = 0 ; while vx_i < vx_ts . len ( ) invariant vx_i <= vx_ts@.len(), values_in_order(vx_m, vx_ts@), vx_sum@ == tsum_upto(s, vx_m, vx_i as int), decreases vx_ts@.len() - vx_i { let $t = & vx_ts [ vx_i ] ; proof { lemma_sum_step(s, vx_m, gs, vx_i as int); } vx_sum += $e ; vx_i += 1 ; } vx_sum }
//@start
    let ghost s = self.events();
    let ghost n = s.len() as int;
    let ghost mut gs: Map<u32, Seq<int>> = Map::empty();
    proof {
        lemma_kinds();
        lemma_start(s);
    }
//@before for
    proof { assert(inv_query(s, query_data@, n)); assert(inv_threads(s, threads@, gs, n)); assert(inv_sizes(s, artifact_sizes@, n)); }
//@loopbind 0 it
//@loop 0
    invariant
        it.seq().len() == n,
        forall|i: int| 0 <= i < n ==> ev(#[trigger] it.seq()[i]) == s[n - 1 - i],
        inv_query(s, query_data@, n - it.index@), //# C14
        inv_threads(s, threads@, gs, n - it.index@), //# C14
        inv_sizes(s, artifact_sizes@, n - it.index@), //# C16
//@loopstart 0
    let ghost m = n - it.index@ - 1;
    let ghost cur = s[m];
    let ghost q0 = query_data@;
    let ghost t0 = threads@;
    let ghost a0 = artifact_sizes@;
    let ghost mut g: Seq<int> = if t0.dom().contains(cur.thread) { gs[cur.thread] } else { Seq::empty() };
    proof {
        assert(ev(current_event) == cur);
        assert(0 <= m < n);
        lemma_count_bound(s, p_hit(s, cur.label), m + 1);
        lemma_count_bound(s, p_miss(s, cur.label), m + 1);
        lemma_count_bound(s, p_invoked(s, cur.label), m + 1);
        assert(q_get(q0, cur.label) == expected(s, cur.label, m + 1));
        assert(a_get(a0, cur.label) == asum(s, cur.label, m + 1));
        lemma_asum_mono(s, cur.label, m);
        if iv(cur) { lemma_stack_begin(s, t0, gs, m, g); }
    }
//@loop 1
    invariant
        stack_is(s, thread.stack@, g),
        stack_ok(s, cur.thread, g, m + 1, m), //# C14
        thread.start == (if t0.dom().contains(cur.thread) { t0[cur.thread].start } else { start }),
        thread.end == (if t0.dom().contains(cur.thread) { t0[cur.thread].end } else { end }),
    ensures
        g.len() == 0 || inside(s[g.last()], cur), //# C14
    decreases g.len(),
//@loopend 1
    proof { lemma_stack_pop(s, cur.thread, g, m); g = g.drop_last(); }
//@before if let Some ( current_top ) = thread . stack . last ( )
    proof {
        lemma_stack_top(s, cur.thread, g, m);
        if g.len() > 0 {
            lemma_expected_room(s, m);
            let p = s[g.last()];
            assert(q_get(q0, p.label) == expected(s, p.label, m + 1));
            assert(has(s, p.label, m + 1)) by { assert(counts(s[g.last()])); }
            assert(q0.dom().contains(p.label));
        }
    }
//@before match & current_event . event_kind
    let ghost q1 = query_data@;
    proof {
        assert forall|l: Seq<char>| #[trigger] q_get(q1, l) == q_add(q_get(q0, l), parent_loss(s, m, l)) by {}
        assert(q1.dom() =~= q0.dom());
        assert(forall|l: Seq<char>| #[trigger] q1.dom().contains(l) ==> q1[l].label@ == l);
    }
//@loopend 0
    proof {
        let g0 = gs;
        if iv(cur) { gs = gs.insert(cur.thread, g.push(m)); }
        assert forall|l: Seq<char>| #[trigger] q_get(query_data@, l) == q_add(q_add(q_get(q0, l), parent_loss(s, m, l)), gain(cur, l)) by {}
        assert forall|l: Seq<char>| #[trigger] query_data@.dom().contains(l) <==> q0.dom().contains(l) || (counts(cur) && l == cur.label) by {}
        lemma_query_step(s, q0, query_data@, m);
        if iv(cur) {
            assert(threads@ =~= t0.insert(cur.thread, threads@[cur.thread]));
            assert(gs[cur.thread].drop_last() =~= g);
            assert(gs =~= g0.insert(cur.thread, gs[cur.thread]));
            assert(stack_is(s, threads@[cur.thread].stack@, gs[cur.thread]));
        }
        lemma_threads_step(s, t0, threads@, g0, gs, m);
        lemma_sizes_step(s, a0, artifact_sizes@, m);
    }
//@before let total_time
    let ghost qf = query_data@;
    let ghost af = artifact_sizes@;
    let ghost tf = threads@;
//@tail vx_ret
    proof {
        axiom_key_order(tf);
        axiom_key_order(qf);
        axiom_key_order(af);
        lemma_total(s, tf, gs, vx_ret.total_time@ as int);
        lemma_listed(s, qf, vx_ret.query_data@);
        lemma_sizes_listed(s, af, vx_ret.artifact_sizes@);
    }
//@end
}
} // verus!
