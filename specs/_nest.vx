// Event streams by value: intervals, proper nesting, parents, the stack of open ancestors, sums.
verus! {
pub struct EventV { pub kind: Seq<char>, pub label: Seq<char>, pub payload: EventPayload, pub thread: u32 }
pub open spec fn ev(e: Event<'_>) -> EventV { EventV { kind: e.event_kind@, label: e.label@, payload: e.payload, thread: e.thread_id } }
pub open spec fn evs(s: Seq<Event<'_>>) -> Seq<EventV> { s.map_values(|e: Event<'_>| ev(e)) }

pub open spec fn iv(e: EventV) -> bool { pl_interval(e.payload) is Some }
pub open spec fn st(e: EventV) -> int { pl_interval(e.payload)->Some_0.0 }
pub open spec fn en(e: EventV) -> int { pl_interval(e.payload)->Some_0.1 }
pub open spec fn ln(e: EventV) -> int { if iv(e) { en(e) - st(e) } else { 0 } }
/// interval `p` contains interval `e`, on the same thread
pub open spec fn inside(p: EventV, e: EventV) -> bool {
    p.thread == e.thread && iv(p) && iv(e) && st(p) <= st(e) && en(e) <= en(p)
}
/// intervals of one thread are disjoint or the one stored later contains the other (events are stored when they end)
pub open spec fn nest2(a: EventV, b: EventV) -> bool {
    iv(a) && iv(b) && a.thread == b.thread ==> inside(b, a) || en(a) <= st(b)
}
pub open spec fn nested(s: Seq<EventV>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && iv(#[trigger] s[i]) ==> st(s[i]) <= en(s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> nest2(#[trigger] s[i], #[trigger] s[j])
}
/// first interval from index j on that contains s[i]
pub open spec fn parent_from(s: Seq<EventV>, i: int, j: int) -> Option<int>
    decreases s.len() - j
{ if j >= s.len() { None } else if inside(s[j], s[i]) { Some(j) } else { parent_from(s, i, j + 1) } }
/// the innermost interval containing s[i]: of those stored later (which contain each other) the first
pub open spec fn parent(s: Seq<EventV>, i: int) -> Option<int> { parent_from(s, i, i + 1) }
pub proof fn lemma_parent_from(s: Seq<EventV>, i: int, j: int)
    requires 0 <= j,
    ensures
        parent_from(s, i, j) matches Some(p) ==> j <= p < s.len() && inside(s[p], s[i]) && (forall|q: int| j <= q < p ==> !inside(#[trigger] s[q], s[i])),
        parent_from(s, i, j) is None ==> (forall|q: int| j <= q < s.len() ==> !inside(#[trigger] s[q], s[i])),
    decreases s.len() - j
{ if j < s.len() { lemma_parent_from(s, i, j + 1); } }
pub proof fn lemma_parent_is(s: Seq<EventV>, i: int, j: int, p: int)
    requires 0 <= j <= p < s.len(), inside(s[p], s[i]), forall|q: int| j <= q < p ==> !inside(#[trigger] s[q], s[i]),
    ensures parent_from(s, i, j) == Some(p),
    decreases p - j
{ if j < p { lemma_parent_is(s, i, j + 1, p); } }
/// every other later interval around s[i] contains the parent or starts where the parent (and s[i]) ends
pub proof fn lemma_parent_innermost(s: Seq<EventV>, i: int, k: int)
    requires nested(s), 0 <= i < k < s.len(), inside(s[k], s[i]),
    ensures parent(s, i) matches Some(p) && (k == p || inside(s[k], s[p]) || (en(s[p]) == st(s[k]) && st(s[i]) == en(s[i]) == en(s[p]))),
{
    lemma_parent_from(s, i, i + 1);
    let p = parent(s, i)->Some_0;
    if k != p { assert(nest2(s[p], s[k])); }
}
/// an interval stored earlier never contains s[i], unless they have the same extent, or s[i] has no extent and lies at its end
pub proof fn lemma_earlier_not_around(s: Seq<EventV>, i: int, k: int)
    requires nested(s), 0 <= k < i < s.len(), inside(s[k], s[i]),
    ensures st(s[i]) == en(s[i]) == en(s[k]) || (st(s[i]) == st(s[k]) && en(s[i]) == en(s[k])),
{ assert(nest2(s[k], s[i])); }

// ---- sums over the events from index m on ------------------------------------------------------------------------------
/// predicate on the index of an event
pub type Pred = spec_fn(int) -> bool;
/// durations of the intervals satisfying p
pub open spec fn own(s: Seq<EventV>, p: Pred, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { 0 } else { (if iv(s[m]) && p(m) { ln(s[m]) } else { 0 }) + own(s, p, m + 1) } }
pub open spec fn parent_sat(s: Seq<EventV>, p: Pred, i: int) -> bool { parent(s, i) matches Some(q) && p(q) }
/// durations of the direct children of the intervals satisfying p
pub open spec fn kids(s: Seq<EventV>, p: Pred, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { 0 } else { (if iv(s[m]) && parent_sat(s, p, m) { ln(s[m]) } else { 0 }) + kids(s, p, m + 1) } }
/// number of events satisfying p
pub open spec fn count(s: Seq<EventV>, p: Pred, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { 0 } else { (if p(m) { 1int } else { 0 }) + count(s, p, m + 1) } }
pub proof fn lemma_count_bound(s: Seq<EventV>, p: Pred, m: int)
    requires 0 <= m <= s.len(),
    ensures 0 <= count(s, p, m) <= s.len() - m,
    decreases s.len() - m
{ if m < s.len() { lemma_count_bound(s, p, m + 1); } }

// ---- children fit into their parent ---------------------------------------------------------------------------------------
/// durations of the children of s[k] from m on
pub open spec fn kof(s: Seq<EventV>, k: int, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { 0 } else { (if iv(s[m]) && parent(s, m) == Some(k) { ln(s[m]) } else { 0 }) + kof(s, k, m + 1) } }
/// start of the first child of s[k] from m on
pub open spec fn low(s: Seq<EventV>, k: int, m: int) -> int
    decreases s.len() - m
{ if m >= s.len() { en(s[k]) } else if iv(s[m]) && parent(s, m) == Some(k) { st(s[m]) } else { low(s, k, m + 1) } }
pub proof fn lemma_low(s: Seq<EventV>, k: int, m: int)
    requires 0 <= m,
    ensures low(s, k, m) == en(s[k]) || exists|c: int| m <= c < s.len() && iv(#[trigger] s[c]) && parent(s, c) == Some(k) && st(s[c]) == low(s, k, m),
    decreases s.len() - m
{
    if m < s.len() && !(iv(s[m]) && parent(s, m) == Some(k)) { lemma_low(s, k, m + 1); }
}
pub proof fn lemma_kof_fits(s: Seq<EventV>, k: int, m: int)
    requires nested(s), 0 <= m, 0 <= k < s.len(), iv(s[k]),
    ensures 0 <= kof(s, k, m) <= en(s[k]) - low(s, k, m), st(s[k]) <= low(s, k, m) <= en(s[k]),
    decreases s.len() - m
{
    if m < s.len() {
        lemma_kof_fits(s, k, m + 1);
        if iv(s[m]) && parent(s, m) == Some(k) {
            lemma_parent_from(s, m, m + 1);
            lemma_low(s, k, m + 1);
            if low(s, k, m + 1) != en(s[k]) {
                let c = choose|c: int| m + 1 <= c < s.len() && iv(#[trigger] s[c]) && parent(s, c) == Some(k) && st(s[c]) == low(s, k, m + 1);
                lemma_parent_from(s, c, c + 1);
                assert(nest2(s[m], s[c]));
                assert(!inside(s[c], s[m]));
            }
        }
    }
}
pub proof fn lemma_kof_zero(s: Seq<EventV>, k: int, m: int)
    requires 0 <= k <= m,
    ensures kof(s, k, m) == 0,
    decreases s.len() - m
{ if m < s.len() { lemma_parent_from(s, m, m + 1); lemma_kof_zero(s, k, m + 1); } }
/// children of the intervals from j on that satisfy p
pub open spec fn ksum(s: Seq<EventV>, p: Pred, j: int, m: int) -> int
    decreases s.len() - j
{ if j >= s.len() { 0 } else { (if iv(s[j]) && p(j) { kof(s, j, m) } else { 0 }) + ksum(s, p, j + 1, m) } }
proof fn lemma_ksum_step(s: Seq<EventV>, p: Pred, j: int, m: int)
    requires 0 <= m < s.len(), 0 <= j,
    ensures ksum(s, p, j, m) == ksum(s, p, j, m + 1) + (if iv(s[m]) && parent_sat(s, p, m) && parent(s, m)->Some_0 >= j { ln(s[m]) } else { 0 }),
    decreases s.len() - j
{
    lemma_parent_from(s, m, m + 1);
    if j < s.len() { lemma_ksum_step(s, p, j + 1, m); }
}
proof fn lemma_kids_ksum(s: Seq<EventV>, p: Pred, m: int)
    requires 0 <= m,
    ensures kids(s, p, m) == ksum(s, p, m, m),
    decreases s.len() - m
{
    if m < s.len() {
        lemma_kids_ksum(s, p, m + 1);
        lemma_ksum_step(s, p, m + 1, m);
        lemma_kof_zero(s, m, m);
        lemma_parent_from(s, m, m + 1);
    }
}
proof fn lemma_slack(s: Seq<EventV>, p: Pred, j: int, m: int, q: int)
    requires nested(s), 0 <= m, 0 <= j, 0 <= q < s.len(), iv(s[q]), p(q),
    ensures own(s, p, j) - ksum(s, p, j, m) >= (if q >= j { ln(s[q]) - kof(s, q, m) } else { 0 }),
    decreases s.len() - j
{
    if j < s.len() {
        lemma_slack(s, p, j + 1, m, q);
        if iv(s[j]) { lemma_kof_fits(s, j, m); }
    }
}
/// what is left of the intervals satisfying p covers the next child of one of them
pub proof fn lemma_room(s: Seq<EventV>, p: Pred, m: int)
    requires nested(s), 0 <= m < s.len(), iv(s[m]), parent_sat(s, p, m),
    ensures own(s, p, m + 1) - kids(s, p, m + 1) >= ln(s[m]), ln(s[m]) >= 0,
{
    let q = parent(s, m)->Some_0;
    lemma_parent_from(s, m, m + 1);
    lemma_kids_ksum(s, p, m + 1);
    lemma_slack(s, p, m + 1, m + 1, q);
    lemma_kof_fits(s, q, m);
}
pub proof fn lemma_slack_nonneg(s: Seq<EventV>, p: Pred, m: int)
    requires nested(s), 0 <= m,
    ensures own(s, p, m) - kids(s, p, m) >= 0,
{
    lemma_kids_ksum(s, p, m);
    lemma_slack0(s, p, m, m);
}
proof fn lemma_slack0(s: Seq<EventV>, p: Pred, j: int, m: int)
    requires nested(s), 0 <= m, 0 <= j,
    ensures own(s, p, j) - ksum(s, p, j, m) >= 0,
    decreases s.len() - j
{
    if j < s.len() {
        lemma_slack0(s, p, j + 1, m);
        if iv(s[j]) { lemma_kof_fits(s, j, m); }
    }
}

// ---- the stack of open ancestors --------------------------------------------------------------------------------------------
/// an interval stored before s[i], from m on, lies outside s[i]: s[i] cannot be a parent any more
pub open spec fn passed(s: Seq<EventV>, i: int, m: int) -> bool {
    exists|w: int| m <= w < i && 0 <= w < s.len() && s[w].thread == s[i].thread && iv(#[trigger] s[w]) && !inside(s[i], s[w])
}
/// `g` holds indices of intervals of thread t, latest stored first, and every other one from m on is passed
pub open spec fn stack_ok(s: Seq<EventV>, t: u32, g: Seq<int>, m: int, pm: int) -> bool {
    &&& forall|j: int| 0 <= j < g.len() ==> m <= #[trigger] g[j] < s.len() && iv(s[g[j]]) && s[g[j]].thread == t
    &&& forall|j: int, k: int| 0 <= j < k < g.len() ==> #[trigger] g[j] > #[trigger] g[k]
    &&& forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t ==> g.contains(i) || passed(s, i, pm)
}
/// the current event may already serve as witness
pub proof fn lemma_stack_weaken(s: Seq<EventV>, t: u32, g: Seq<int>, m: int, pm: int)
    requires stack_ok(s, t, g, m, pm),
    ensures stack_ok(s, t, g, m, pm - 1),
{
    assert forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t implies g.contains(i) || passed(s, i, pm - 1) by {
        if !g.contains(i) {
            let w = choose|w: int| pm <= w < i && 0 <= w < s.len() && s[w].thread == s[i].thread && iv(#[trigger] s[w]) && !inside(s[i], s[w]);
            assert(pm - 1 <= w < i);
        }
    }
}
pub proof fn lemma_stack_pop(s: Seq<EventV>, t: u32, g: Seq<int>, m: int)
    requires nested(s), stack_ok(s, t, g, m + 1, m), 0 <= m < s.len(), iv(s[m]), s[m].thread == t, g.len() > 0, !inside(s[g.last()], s[m]),
    ensures stack_ok(s, t, g.drop_last(), m + 1, m),
{
    let h = g.drop_last();
    assert forall|i: int| m + 1 <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t implies h.contains(i) || passed(s, i, m) by {
        if g.contains(i) {
            let j = choose|j: int| 0 <= j < g.len() && g[j] == i;
            if j < h.len() { assert(h[j] == i); }
        }
    }
}
pub proof fn lemma_stack_top(s: Seq<EventV>, t: u32, g: Seq<int>, m: int)
    requires nested(s), stack_ok(s, t, g, m + 1, m), 0 <= m < s.len(), iv(s[m]), s[m].thread == t, g.len() == 0 || inside(s[g.last()], s[m]),
    ensures parent(s, m) == (if g.len() == 0 { None::<int> } else { Some(g.last()) }),
{
    lemma_parent_from(s, m, m + 1);
    if let Some(p) = parent(s, m) {
        if !g.contains(p) {
            let w = choose|w: int| m <= w < p && 0 <= w < s.len() && s[w].thread == s[p].thread && iv(#[trigger] s[w]) && !inside(s[p], s[w]);
            assert(w != m);
            assert(nest2(s[w], s[p]));
            assert(nest2(s[m], s[w]));
            assert(inside(s[w], s[m]));
            assert(false);
        }
        let j = choose|j: int| 0 <= j < g.len() && g[j] == p;
        if j < g.len() - 1 { assert(g[j] > g[g.len() - 1]); }
    }
}
pub proof fn lemma_stack_push(s: Seq<EventV>, t: u32, g: Seq<int>, m: int)
    requires nested(s), stack_ok(s, t, g, m + 1, m), 0 <= m < s.len(), iv(s[m]), s[m].thread == t,
    ensures stack_ok(s, t, g.push(m), m, m),
{
    let h = g.push(m);
    assert forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t implies h.contains(i) || passed(s, i, m) by {
        if i == m { assert(h[h.len() - 1] == m); }
        else if g.contains(i) {
            let j = choose|j: int| 0 <= j < g.len() && g[j] == i;
            assert(h[j] == i);
        }
    }
}
/// an event that is not an interval of the thread changes nothing
pub proof fn lemma_stack_skip(s: Seq<EventV>, t: u32, g: Seq<int>, m: int)
    requires stack_ok(s, t, g, m + 1, m + 1), 0 <= m < s.len(), !(iv(s[m]) && s[m].thread == t),
    ensures stack_ok(s, t, g, m, m),
{ lemma_stack_weaken(s, t, g, m + 1, m + 1); }

// ---- span of a thread ----------------------------------------------------------------------------------------------------------
pub open spec fn join(a: Option<(int, int)>, b: Option<(int, int)>) -> Option<(int, int)> {
    match (a, b) {
        (Some((a0, a1)), Some((b0, b1))) => Some((if a0 <= b0 { a0 } else { b0 }, if a1 >= b1 { a1 } else { b1 })),
        (Some(x), None) => Some(x),
        (None, y) => y,
    }
}
/// earliest start and latest end of the intervals of thread t from m on
pub open spec fn span(s: Seq<EventV>, t: u32, m: int) -> Option<(int, int)>
    decreases s.len() - m
{ if m >= s.len() { None } else { join(if iv(s[m]) && s[m].thread == t { Some((st(s[m]), en(s[m]))) } else { None }, span(s, t, m + 1)) } }
pub proof fn lemma_span(s: Seq<EventV>, t: u32, m: int)
    requires nested(s), 0 <= m,
    ensures span(s, t, m) matches Some((a, b)) ==> a <= b,
        span(s, t, m) is Some <==> exists|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t,
        forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t ==> (span(s, t, m) matches Some((a, b)) && a <= st(s[i]) && en(s[i]) <= b),
    decreases s.len() - m
{ if m < s.len() { lemma_span(s, t, m + 1); } }
pub open spec fn span_len(s: Seq<EventV>, t: u32) -> int { match span(s, t, 0) { Some((a, b)) => b - a, None => 0 } }
pub open spec fn tsum(s: Seq<EventV>, ts: Seq<u32>) -> int
    decreases ts.len()
{ if ts.len() == 0 { 0 } else { tsum(s, ts.drop_last()) + span_len(s, ts.last()) } }
/// the threads that have intervals, each once
pub open spec fn thread_list(s: Seq<EventV>, ts: Seq<u32>) -> bool {
    ts.no_duplicates() && (forall|t: u32| ts.contains(t) <==> (#[trigger] span(s, t, 0)) is Some)
}
proof fn lemma_tsum_remove(s: Seq<EventV>, ts: Seq<u32>, k: int)
    requires 0 <= k < ts.len(),
    ensures tsum(s, ts) == tsum(s, ts.remove(k)) + span_len(s, ts[k]),
    decreases ts.len()
{
    if k < ts.len() - 1 {
        lemma_tsum_remove(s, ts.drop_last(), k);
        assert(ts.drop_last().remove(k) =~= ts.remove(k).drop_last());
        assert(ts.remove(k).last() == ts.last());
    } else { assert(ts.remove(k) =~= ts.drop_last()); }
}
/// the sum does not depend on the order of the threads
pub proof fn lemma_tsum_any(s: Seq<EventV>, a: Seq<u32>, b: Seq<u32>)
    requires a.no_duplicates(), b.no_duplicates(), forall|t: u32| a.contains(t) <==> b.contains(t),
    ensures tsum(s, a) == tsum(s, b),
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
    } else {
        let x = a.last();
        assert(a.contains(x));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        lemma_tsum_remove(s, b, k);
        let a2 = a.drop_last();
        let b2 = b.remove(k);
        assert forall|t: u32| a2.contains(t) <==> b2.contains(t) by {
            if a2.contains(t) {
                let i = choose|i: int| 0 <= i < a2.len() && a2[i] == t;
                assert(a[i] == t);
                assert(a.contains(t));
                let j = choose|j: int| 0 <= j < b.len() && b[j] == t;
                assert(b2[if j < k { j } else { j - 1 }] == t);
            }
            if b2.contains(t) {
                let j = choose|j: int| 0 <= j < b2.len() && b2[j] == t;
                let jj = if j < k { j } else { j + 1 };
                assert(b[jj] == t);
                assert(b.contains(t));
                let i = choose|i: int| 0 <= i < a.len() && a[i] == t;
                assert(a2[i] == t);
            }
        }
        lemma_tsum_any(s, a2, b2);
    }
}
} // verus!
