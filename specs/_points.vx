// Properly nested traces with instants: the points of a trace (starts, ends, instants) from the last to the first.
//@include _fullev.vx
verus! {
/// interval p contains e
pub open spec fn inside(p: FEv, e: FEv) -> bool { iv(p) && st(p) <= st(e) && en(e) <= en(p) }
/// the event stored later is an interval around the other one, or the other one is over when it starts (events are stored when they end)
pub open spec fn nest2(a: FEv, b: FEv) -> bool { inside(b, a) || en(a) <= st(b) }
/// a properly nested trace of one thread: intervals and instants
pub open spec fn nested(s: Seq<FEv>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> timed(#[trigger] s[i]) && st(s[i]) <= en(s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> nest2(#[trigger] s[i], #[trigger] s[j])
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] s[i]).thread == (#[trigger] s[j]).thread
}
/// first event from index j on that is an interval around s[i]
pub open spec fn parent_from(s: Seq<FEv>, i: int, j: int) -> Option<int>
    decreases s.len() - j
{ if j >= s.len() { None } else if inside(s[j], s[i]) { Some(j) } else { parent_from(s, i, j + 1) } }
/// the innermost interval around s[i]: of those stored later (which contain each other) the first
pub open spec fn parent(s: Seq<FEv>, i: int) -> Option<int> { parent_from(s, i, i + 1) }
pub proof fn lemma_parent_from(s: Seq<FEv>, i: int, j: int)
    requires 0 <= j,
    ensures
        parent_from(s, i, j) matches Some(p) ==> j <= p < s.len() && inside(s[p], s[i]) && (forall|q: int| j <= q < p ==> !inside(#[trigger] s[q], s[i])),
        parent_from(s, i, j) is None ==> (forall|q: int| j <= q < s.len() ==> !inside(#[trigger] s[q], s[i])),
    decreases s.len() - j
{ if j < s.len() { lemma_parent_from(s, i, j + 1); } }
/// every other later interval around s[i] contains the parent or starts where the parent (and s[i]) ends
pub proof fn lemma_parent_innermost(s: Seq<FEv>, i: int, k: int)
    requires nested(s), 0 <= i < k < s.len(), inside(s[k], s[i]),
    ensures parent(s, i) matches Some(p) && (k == p || inside(s[k], s[p]) || (en(s[p]) == st(s[k]) && st(s[i]) == en(s[i]) == en(s[p]))), //# C19
{
    lemma_parent_from(s, i, i + 1);
    let p = parent(s, i)->Some_0;
    if k != p { assert(nest2(s[p], s[k])); }
}

// ---- points ----------------------------------------------------------------------------------------------------------------
pub type PointV = SamplePoint<WithParent<FEv>>;
pub open spec fn top<T>(g: Seq<T>) -> Option<T> { if g.len() == 0 { None } else { Some(g.last()) } }
/// the points of the events s, last stored first, inside the open intervals g: leave what does not contain the next event, then enter it
pub open spec fn walk(s: Seq<FEv>, g: Seq<FEv>) -> Seq<PointV>
    decreases 2 * s.len() + g.len()
{
    if g.len() > 0 && (s.len() == 0 || !pl_contains(g.last().payload, s.last().payload)) {
        seq![SamplePoint::Start(WithParent { this: g.last(), parent: top(g.drop_last()) })] + walk(s, g.drop_last())
    } else if s.len() == 0 { Seq::empty() }
    else if iv(s.last()) { seq![SamplePoint::End(WithParent { this: s.last(), parent: top(g) })] + walk(s.drop_last(), g.push(s.last())) }
    else { seq![SamplePoint::Instant(WithParent { this: s.last(), parent: top(g) })] + walk(s.drop_last(), g) }
}
pub open spec fn pt_event(p: PointV) -> WithParent<FEv> { match p { SamplePoint::Start(e) => e, SamplePoint::End(e) => e, SamplePoint::Instant(e) => e } }
/// the kind of the point fits its event
pub open spec fn pt_ok(p: PointV) -> bool {
    match p { SamplePoint::Start(e) => iv(e.this), SamplePoint::End(e) => iv(e.this), SamplePoint::Instant(e) => timed(e.this) && !iv(e.this) }
}
pub open spec fn pt_time(p: PointV) -> int { match p { SamplePoint::Start(e) => st(e.this), SamplePoint::End(e) => en(e.this), SamplePoint::Instant(e) => st(e.this) } }

/// the same with the positions of the events: 0 start, 1 end, 2 instant
pub struct IP { pub k: int, pub i: int }
pub open spec fn iwalk(s: Seq<FEv>, m: int, g: Seq<int>) -> Seq<IP>
    decreases (if m > 0 { 2 * m } else { 0 }) + g.len()
{
    if g.len() > 0 && (m <= 0 || !inside(s[g.last()], s[m - 1])) { seq![IP { k: 0, i: g.last() }] + iwalk(s, m, g.drop_last()) }
    else if m <= 0 { Seq::empty() }
    else if iv(s[m - 1]) { seq![IP { k: 1, i: m - 1 }] + iwalk(s, m - 1, g.push(m - 1)) }
    else { seq![IP { k: 2, i: m - 1 }] + iwalk(s, m - 1, g) }
}
pub open spec fn at(s: Seq<FEv>, p: IP) -> PointV {
    let e = WithParent { this: s[p.i], parent: match parent(s, p.i) { Some(q) => Some(s[q]), None => None } };
    if p.k == 0 { SamplePoint::Start(e) } else if p.k == 1 { SamplePoint::End(e) } else { SamplePoint::Instant(e) }
}
pub open spec fn vals(s: Seq<FEv>, g: Seq<int>) -> Seq<FEv> { g.map_values(|i: int| s[i]) }
pub open spec fn ats(s: Seq<FEv>, p: Seq<IP>) -> Seq<PointV> { p.map_values(|q: IP| at(s, q)) }
pub open spec fn ip_time(s: Seq<FEv>, p: IP) -> int { if p.k == 1 { en(s[p.i]) } else { st(s[p.i]) } }

/// w rules out that s[i] is the parent of something stored before w
pub open spec fn passed(s: Seq<FEv>, i: int, m: int) -> bool { exists|w: int| m <= w < i && 0 <= w < s.len() && !inside(s[i], #[trigger] s[w]) }
/// g holds the open intervals, outermost first: each the parent of the next; every other interval from m on is passed
pub open spec fn open_ok(s: Seq<FEv>, g: Seq<int>, m: int, pm: int) -> bool {
    &&& 0 <= m <= s.len()
    &&& forall|j: int| 0 <= j < g.len() ==> m <= #[trigger] g[j] < s.len() && iv(s[g[j]])
    &&& forall|j: int, k: int| 0 <= j < k < g.len() ==> #[trigger] g[j] > #[trigger] g[k]
    &&& m > 0 ==> forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) ==> g.contains(i) || passed(s, i, pm)
    &&& forall|j: int, k: int| 0 <= j < g.len() && k == j + 1 && k < g.len() ==> parent(s, #[trigger] g[k]) == Some(#[trigger] g[j])
    &&& g.len() > 0 ==> parent(s, g[0]) is None
}
proof fn lemma_open_weaken(s: Seq<FEv>, g: Seq<int>, m: int, pm: int)
    requires open_ok(s, g, m, pm),
    ensures open_ok(s, g, m, pm - 1),
{
    assert forall|i: int| m > 0 && m <= i < s.len() && iv(#[trigger] s[i]) implies g.contains(i) || passed(s, i, pm - 1) by {
        if !g.contains(i) { let w = choose|w: int| pm <= w < i && 0 <= w < s.len() && !inside(s[i], #[trigger] s[w]); assert(pm - 1 <= w < i); }
    }
}
proof fn lemma_open_pop(s: Seq<FEv>, g: Seq<int>, m: int)
    requires nested(s), open_ok(s, g, m, m - 1), m > 0, g.len() > 0, !inside(s[g.last()], s[m - 1]),
    ensures open_ok(s, g.drop_last(), m, m - 1),
{
    let h = g.drop_last();
    assert forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) implies h.contains(i) || passed(s, i, m - 1) by {
        if g.contains(i) {
            let j = choose|j: int| 0 <= j < g.len() && g[j] == i;
            if j < h.len() { assert(h[j] == i); }
        }
    }
}
proof fn lemma_open_top(s: Seq<FEv>, g: Seq<int>, m: int)
    requires nested(s), open_ok(s, g, m, m - 1), m > 0, g.len() == 0 || inside(s[g.last()], s[m - 1]),
    ensures parent(s, m - 1) == top(g),
{
    let x = m - 1;
    lemma_parent_from(s, x, m);
    if let Some(p) = parent(s, x) {
        if !g.contains(p) {
            let w = choose|w: int| m - 1 <= w < p && 0 <= w < s.len() && !inside(s[p], #[trigger] s[w]);
            assert(w != x);
            assert(nest2(s[w], s[p]));
            assert(nest2(s[x], s[w]));
            assert(false);
        }
        let j = choose|j: int| 0 <= j < g.len() && g[j] == p;
        if j < g.len() - 1 { assert(g[j] > g[g.len() - 1]); }
    }
}
proof fn lemma_open_push(s: Seq<FEv>, g: Seq<int>, m: int)
    requires nested(s), open_ok(s, g, m, m - 1), m > 0, iv(s[m - 1]), parent(s, m - 1) == top(g),
    ensures open_ok(s, g.push(m - 1), m - 1, m - 1),
{
    let h = g.push(m - 1);
    assert forall|i: int| m - 1 <= i < s.len() && iv(#[trigger] s[i]) implies h.contains(i) || passed(s, i, m - 1) by {
        if i == m - 1 { assert(h[h.len() - 1] == m - 1); }
        else if g.contains(i) { let j = choose|j: int| 0 <= j < g.len() && g[j] == i; assert(h[j] == i); }
    }
}
/// b is not before the end of anything still to come, nor before the start of the innermost open interval
pub open spec fn bound(s: Seq<FEv>, g: Seq<int>, m: int, b: int) -> bool {
    &&& forall|k: int| 0 <= k < m ==> en(#[trigger] s[k]) <= b
    &&& g.len() > 0 ==> st(s[g.last()]) <= b
}
proof fn lemma_starts(s: Seq<FEv>, g: Seq<int>, m: int, pm: int)
    requires nested(s), open_ok(s, g, m, pm), g.len() > 1,
    ensures st(s[g[g.len() - 2]]) <= st(s[g.last()]),
{ let k = g.len() - 1; lemma_parent_from(s, g[k], g[k] + 1); assert(parent(s, g[k]) == Some(g[k - 1])); }
proof fn lemma_over(s: Seq<FEv>, g: Seq<int>, m: int)
    requires nested(s), open_ok(s, g, m, m - 1), m > 0, g.len() > 0, !inside(s[g.last()], s[m - 1]),
    ensures forall|k: int| 0 <= k < m ==> en(#[trigger] s[k]) <= st(s[g.last()]),
{
    let t = g.last();
    assert(g[g.len() - 1] >= m);
    assert(nest2(s[m - 1], s[t]));
    assert forall|k: int| 0 <= k < m implies en(#[trigger] s[k]) <= st(s[t]) by { if k < m - 1 { assert(nest2(s[k], s[m - 1])); } }
}
/// everything about the points, at once
pub open spec fn points_ok(s: Seq<FEv>, g: Seq<int>, m: int, p: Seq<IP>) -> bool {
    &&& p.no_duplicates()
    &&& forall|q: IP| #[trigger] p.contains(q) <==> {
        ||| q.k == 0 && (g.contains(q.i) || (0 <= q.i < m && iv(s[q.i])))
        ||| q.k == 1 && 0 <= q.i < m && iv(s[q.i])
        ||| q.k == 2 && 0 <= q.i < m && !iv(s[q.i])
    }
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> ip_time(s, #[trigger] p[j]) >= ip_time(s, #[trigger] p[k])
    // an interval ends after it starts, also when that is the same time
    &&& forall|j: int, k: int| 0 <= j < p.len() && 0 <= k < p.len() && (#[trigger] p[j]).k == 1 && (#[trigger] p[k]).k == 0 && p[j].i == p[k].i ==> j < k
}
proof fn lemma_cons(s: Seq<FEv>, h: IP, t: Seq<IP>, b: int)
    requires
        t.no_duplicates(), !t.contains(h),
        forall|j: int, k: int| 0 <= j < k < t.len() ==> ip_time(s, #[trigger] t[j]) >= ip_time(s, #[trigger] t[k]),
        forall|j: int| 0 <= j < t.len() ==> ip_time(s, #[trigger] t[j]) <= b,
        ip_time(s, h) == b,
        forall|j: int, k: int| 0 <= j < t.len() && 0 <= k < t.len() && (#[trigger] t[j]).k == 1 && (#[trigger] t[k]).k == 0 && t[j].i == t[k].i ==> j < k,
        h.k == 0 ==> forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).k == 1 ==> t[j].i != h.i,
    ensures
        ({
            let p = seq![h] + t;
            &&& p.no_duplicates()
            &&& forall|q: IP| #[trigger] p.contains(q) <==> q == h || t.contains(q)
            &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> ip_time(s, #[trigger] p[j]) >= ip_time(s, #[trigger] p[k])
            &&& forall|j: int, k: int| 0 <= j < p.len() && 0 <= k < p.len() && (#[trigger] p[j]).k == 1 && (#[trigger] p[k]).k == 0 && p[j].i == p[k].i ==> j < k
        }),
{
    let p = seq![h] + t;
    assert(p[0] == h);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] p[j + 1] == t[j] by { }
    assert forall|j: int, k: int| 0 <= j < p.len() && 0 <= k < p.len() && j != k implies p[j] != p[k] by {
        if j == 0 { assert(p[k] == t[k - 1]); assert(t.contains(t[k - 1])); }
        else if k == 0 { assert(p[j] == t[j - 1]); assert(t.contains(t[j - 1])); }
        else { assert(p[j] == t[j - 1] && p[k] == t[k - 1]); }
    }
    assert forall|q: IP| #[trigger] p.contains(q) <==> q == h || t.contains(q) by {
        if p.contains(q) { let j = choose|j: int| 0 <= j < p.len() && p[j] == q; if j > 0 { assert(t[j - 1] == q); } }
        if t.contains(q) { let j = choose|j: int| 0 <= j < t.len() && t[j] == q; assert(p[j + 1] == q); }
        if q == h { assert(p[0] == q); }
    }
    assert forall|j: int, k: int| 0 <= j < k < p.len() implies ip_time(s, #[trigger] p[j]) >= ip_time(s, #[trigger] p[k]) by {
        assert(p[k] == t[k - 1]);
        if j > 0 { assert(p[j] == t[j - 1]); }
    }
    assert forall|j: int, k: int| 0 <= j < p.len() && 0 <= k < p.len() && (#[trigger] p[j]).k == 1 && (#[trigger] p[k]).k == 0 && p[j].i == p[k].i implies j < k by {
        if k == 0 { if j > 0 { assert(p[j] == t[j - 1]); } }
        else if j > 0 { assert(p[j] == t[j - 1] && p[k] == t[k - 1]); }
    }
}
pub open spec fn upto(s: Seq<FEv>, p: Seq<IP>, b: int) -> bool { forall|j: int| 0 <= j < p.len() ==> ip_time(s, #[trigger] p[j]) <= b }
proof fn lemma_upto_cons(s: Seq<FEv>, h: IP, t: Seq<IP>, x: int, b: int)
    requires upto(s, t, x), ip_time(s, h) == x, x <= b,
    ensures upto(s, seq![h] + t, b),
{
    let p = seq![h] + t;
    assert forall|j: int| 0 <= j < p.len() implies ip_time(s, #[trigger] p[j]) <= b by { if j > 0 { assert(p[j] == t[j - 1]); } }
}
proof fn lemma_leave(s: Seq<FEv>, m: int, g: Seq<int>, t: Seq<IP>)
    requires
        g.len() > 0, forall|j: int, k: int| 0 <= j < k < g.len() ==> #[trigger] g[j] > #[trigger] g[k], m <= g[g.len() - 1],
        points_ok(s, g.drop_last(), m, t), upto(s, t, st(s[g.last()])),
    ensures points_ok(s, g, m, seq![IP { k: 0, i: g.last() }] + t),
{
    let i = g.last();
    let d = g.drop_last();
    let h = IP { k: 0, i };
    let p = seq![h] + t;
    assert(!d.contains(i)) by { if d.contains(i) { let j = choose|j: int| 0 <= j < d.len() && d[j] == i; assert(g[j] > g[g.len() - 1]); } }
    assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]).k == 1 implies t[j].i != i by { assert(t.contains(t[j])); }
    assert(!t.contains(h));
    lemma_cons(s, h, t, st(s[i]));
    assert forall|q: IP| #[trigger] p.contains(q) <==> { ||| q.k == 0 && (g.contains(q.i) || (0 <= q.i < m && iv(s[q.i]))) ||| q.k == 1 && 0 <= q.i < m && iv(s[q.i]) ||| q.k == 2 && 0 <= q.i < m && !iv(s[q.i]) } by {
        if d.contains(q.i) { let j = choose|j: int| 0 <= j < d.len() && d[j] == q.i; assert(g[j] == q.i); }
        if g.contains(q.i) && q.i != i { let j = choose|j: int| 0 <= j < g.len() && g[j] == q.i; assert(d[j] == q.i); }
        assert(g[g.len() - 1] == i);
        assert(p.contains(q) <==> q == h || t.contains(q));
    }
}
proof fn lemma_enter(s: Seq<FEv>, m: int, g: Seq<int>, t: Seq<IP>)
    requires
        m > 0, iv(s[m - 1]), points_ok(s, g.push(m - 1), m - 1, t), upto(s, t, en(s[m - 1])),
    ensures points_ok(s, g, m, seq![IP { k: 1, i: m - 1 }] + t),
{
    let x = m - 1;
    let e = g.push(x);
    let h = IP { k: 1, i: x };
    let p = seq![h] + t;
    assert(!t.contains(h));
    lemma_cons(s, h, t, en(s[x]));
    assert forall|q: IP| #[trigger] p.contains(q) <==> { ||| q.k == 0 && (g.contains(q.i) || (0 <= q.i < m && iv(s[q.i]))) ||| q.k == 1 && 0 <= q.i < m && iv(s[q.i]) ||| q.k == 2 && 0 <= q.i < m && !iv(s[q.i]) } by {
        if g.contains(q.i) { let j = choose|j: int| 0 <= j < g.len() && g[j] == q.i; assert(e[j] == q.i); }
        if e.contains(q.i) && q.i != x { let j = choose|j: int| 0 <= j < e.len() && e[j] == q.i; assert(g[j] == q.i); }
        assert(e[e.len() - 1] == x);
        assert(p.contains(q) <==> q == h || t.contains(q));
    }
}
proof fn lemma_instant(s: Seq<FEv>, m: int, g: Seq<int>, t: Seq<IP>)
    requires
        m > 0, !iv(s[m - 1]), points_ok(s, g, m - 1, t), upto(s, t, st(s[m - 1])),
    ensures points_ok(s, g, m, seq![IP { k: 2, i: m - 1 }] + t),
{
    let x = m - 1;
    let h = IP { k: 2, i: x };
    let p = seq![h] + t;
    assert(!t.contains(h));
    lemma_cons(s, h, t, st(s[x]));
    assert forall|q: IP| #[trigger] p.contains(q) <==> { ||| q.k == 0 && (g.contains(q.i) || (0 <= q.i < m && iv(s[q.i]))) ||| q.k == 1 && 0 <= q.i < m && iv(s[q.i]) ||| q.k == 2 && 0 <= q.i < m && !iv(s[q.i]) } by {
        assert(p.contains(q) <==> q == h || t.contains(q));
    }
}
/// what the next event tells about the open intervals, without their definition
proof fn lemma_popped(s: Seq<FEv>, g: Seq<int>, m: int, b: int)
    requires nested(s), open_ok(s, g, m, m - 1), bound(s, g, m, b), g.len() > 0, m <= 0 || !inside(s[g.last()], s[m - 1]),
    ensures
        open_ok(s, g.drop_last(), m, m - 1), bound(s, g.drop_last(), m, st(s[g.last()])), st(s[g.last()]) <= b,
        m <= g[g.len() - 1], forall|j: int, k: int| 0 <= j < k < g.len() ==> #[trigger] g[j] > #[trigger] g[k],
{
    if m > 0 { lemma_open_pop(s, g, m); lemma_over(s, g, m); }
    if g.len() > 1 { lemma_starts(s, g, m, m - 1); assert(g.drop_last().last() == g[g.len() - 2]); }
}
proof fn lemma_entered(s: Seq<FEv>, g: Seq<int>, m: int, b: int)
    requires nested(s), open_ok(s, g, m, m - 1), bound(s, g, m, b), m > 0, g.len() == 0 || inside(s[g.last()], s[m - 1]),
    ensures
        parent(s, m - 1) == top(g), en(s[m - 1]) <= b,
        iv(s[m - 1]) ==> open_ok(s, g.push(m - 1), m - 1, m - 1) && bound(s, g.push(m - 1), m - 1, en(s[m - 1])),
        !iv(s[m - 1]) ==> open_ok(s, g, m - 1, m - 1) && bound(s, g, m - 1, st(s[m - 1])) && st(s[m - 1]) == en(s[m - 1]),
{
    let x = m - 1;
    lemma_open_top(s, g, m);
    assert forall|k: int| 0 <= k < x implies en(#[trigger] s[k]) <= en(s[x]) by { assert(nest2(s[k], s[x])); }
    if iv(s[x]) { lemma_open_push(s, g, m); }
    else {
        assert(pl_interval(s[x].payload) is None && st(s[x]) == en(s[x]));
        if g.len() > 0 { assert(inside(s[g.last()], s[x])); }
    }
}
proof fn lemma_points_at(s: Seq<FEv>, m: int, g: Seq<int>, b: int, pm: int)
    requires nested(s), open_ok(s, g, m, pm), bound(s, g, m, b), pm == m || pm == m - 1, m >= 0,
    ensures points_ok(s, g, m, iwalk(s, m, g)), upto(s, iwalk(s, m, g), b),
    decreases 2 * m + g.len()
{
    hide(open_ok); hide(nested); hide(bound); hide(points_ok); hide(upto); hide(inside); hide(iv);
    let p = iwalk(s, m, g);
    if pm == m { lemma_open_weaken(s, g, m, pm); }
    if g.len() > 0 && (m <= 0 || !inside(s[g.last()], s[m - 1])) {
        let i = g.last();
        let d = g.drop_last();
        lemma_popped(s, g, m, b);
        lemma_points_at(s, m, d, st(s[i]), m - 1);
        let t = iwalk(s, m, d);
        lemma_leave(s, m, g, t);
        lemma_upto_cons(s, IP { k: 0, i }, t, st(s[i]), b);
    } else if m <= 0 {
        lemma_none(s, g, p, b);
    } else {
        let x = m - 1;
        lemma_entered(s, g, m, b);
        if iv(s[x]) {
            let e = g.push(x);
            lemma_points_at(s, x, e, en(s[x]), x);
            lemma_enter(s, m, g, iwalk(s, x, e));
            lemma_upto_cons(s, IP { k: 1, i: x }, iwalk(s, x, e), en(s[x]), b);
        } else {
            lemma_points_at(s, x, g, st(s[x]), x);
            lemma_instant(s, m, g, iwalk(s, x, g));
            lemma_upto_cons(s, IP { k: 2, i: x }, iwalk(s, x, g), st(s[x]), b);
        }
    }
}
proof fn lemma_none(s: Seq<FEv>, g: Seq<int>, p: Seq<IP>, b: int)
    requires g.len() == 0, p.len() == 0,
    ensures points_ok(s, g, 0, p), upto(s, p, b),
{ }
/// the points by value
pub proof fn lemma_walk(s: Seq<FEv>, m: int, g: Seq<int>, b: int, pm: int)
    requires nested(s), open_ok(s, g, m, pm), bound(s, g, m, b), pm == m || pm == m - 1, 0 <= m <= s.len(),
    ensures walk(s.take(m), vals(s, g)) == ats(s, iwalk(s, m, g)),
    decreases 2 * m + g.len()
{
    hide(open_ok); hide(nested); hide(bound); hide(iv); hide(pl_contains); hide(inside);
    let c = s.take(m);
    let v = vals(s, g);
    let p = iwalk(s, m, g);
    if pm == m { lemma_open_weaken(s, g, m, pm); }
    if g.len() > 0 { assert(v.last() == s[g.last()]); }
    if m > 0 { assert(c.last() == s[m - 1]); assert(c.drop_last() =~= s.take(m - 1)); }
    lemma_contains(s, g, m, pm);
    if g.len() > 0 && (m <= 0 || !inside(s[g.last()], s[m - 1])) {
        let i = g.last();
        let d = g.drop_last();
        lemma_popped(s, g, m, b);
        lemma_walk(s, m, d, st(s[i]), m - 1);
        assert(v.drop_last() =~= vals(s, d));
        lemma_parent_open(s, g, m, m - 1);
        assert(at(s, IP { k: 0, i }) == SamplePoint::Start(WithParent { this: v.last(), parent: top(v.drop_last()) }));
        assert(ats(s, p) =~= seq![at(s, IP { k: 0, i })] + ats(s, iwalk(s, m, d)));
    } else if m > 0 {
        let x = m - 1;
        lemma_entered(s, g, m, b);
        if iv(s[x]) {
            let e = g.push(x);
            lemma_walk(s, x, e, en(s[x]), x);
            assert(v.push(s[x]) =~= vals(s, e));
            assert(ats(s, p) =~= seq![at(s, IP { k: 1, i: x })] + ats(s, iwalk(s, x, e)));
        } else {
            lemma_walk(s, x, g, st(s[x]), x);
            assert(ats(s, p) =~= seq![at(s, IP { k: 2, i: x })] + ats(s, iwalk(s, x, g)));
        }
    } else { assert(ats(s, p) =~= Seq::empty()); assert(v =~= Seq::empty()); }
}
proof fn lemma_contains(s: Seq<FEv>, g: Seq<int>, m: int, pm: int)
    requires nested(s), open_ok(s, g, m, pm),
    ensures m > 0 && g.len() > 0 ==> pl_contains(s[g.last()].payload, s[m - 1].payload) == inside(s[g.last()], s[m - 1]),
{ if m > 0 && g.len() > 0 { let k = g.len() - 1; assert(m <= g[k] < s.len()); assert(timed(s[m - 1])); assert(timed(s[g[k]])); } }
proof fn lemma_parent_open(s: Seq<FEv>, g: Seq<int>, m: int, pm: int)
    requires open_ok(s, g, m, pm), g.len() > 0,
    ensures parent(s, g.last()) == top(g.drop_last()),
{ if g.len() > 1 { let k = g.len() - 1; assert(parent(s, g[k]) == Some(g[k - 1])); } }
/// C19: the points of a trace
pub open spec fn points(s: Seq<FEv>) -> Seq<PointV> { walk(s, Seq::empty()) }
/// p lists the start and end of every interval and every instant, each once, in time order (last first)
pub open spec fn lists(s: Seq<FEv>, p: Seq<IP>) -> bool {
    &&& p.no_duplicates()
    &&& forall|q: IP| #[trigger] p.contains(q) <==> 0 <= q.i < s.len() && (if iv(s[q.i]) { q.k == 0 || q.k == 1 } else { q.k == 2 })
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> ip_time(s, #[trigger] p[j]) >= ip_time(s, #[trigger] p[k])
    &&& forall|j: int, k: int| 0 <= j < p.len() && 0 <= k < p.len() && (#[trigger] p[j]).k == 1 && (#[trigger] p[k]).k == 0 && p[j].i == p[k].i ==> j < k
}
pub proof fn lemma_points_of(s: Seq<FEv>) -> (p: Seq<IP>)
    requires nested(s),
    ensures
        lists(s, p), //# C19
        points(s) == ats(s, p), //# C19
{
    let g = Seq::<int>::empty();
    let p = iwalk(s, s.len() as int, g);
    let b = if s.len() > 0 { en(s.last()) } else { 0 };
    assert forall|k: int| 0 <= k < s.len() implies en(#[trigger] s[k]) <= b by { if k < s.len() - 1 { assert(nest2(s[k], s[s.len() - 1])); } }
    lemma_points_at(s, s.len() as int, g, b, s.len() as int);
    lemma_walk(s, s.len() as int, g, b, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(vals(s, g) =~= Seq::empty());
    p
}
pub proof fn lemma_times(s: Seq<FEv>)
    requires nested(s),
    ensures
        forall|j: int| 0 <= j < points(s).len() ==> pt_ok(#[trigger] points(s)[j]),
        forall|j: int, k: int| 0 <= j < k < points(s).len() ==> pt_time(#[trigger] points(s)[j]) >= pt_time(#[trigger] points(s)[k]),
{
    let p = lemma_points_of(s);
    assert forall|j: int| 0 <= j < p.len() implies pt_ok(#[trigger] points(s)[j]) && pt_time(points(s)[j]) == ip_time(s, p[j]) by { assert(p.contains(p[j])); assert(points(s)[j] == at(s, p[j])); }
}
/// how two consecutive points are related
pub open spec fn adjacent(a: PointV, b: PointV) -> bool {
    match (a, b) {
        (SamplePoint::Start(x), SamplePoint::End(y)) => x == y,
        (SamplePoint::Start(outer), SamplePoint::Start(inner)) => inner.parent == Some(outer.this),
        (SamplePoint::Start(outer), SamplePoint::Instant(inner)) => inner.parent == Some(outer.this),
        (SamplePoint::End(inner), SamplePoint::End(outer)) => inner.parent == Some(outer.this),
        (SamplePoint::Instant(inner), SamplePoint::End(outer)) => inner.parent == Some(outer.this),
        (_, _) => pt_event(a).parent == pt_event(b).parent,
    }
}
pub proof fn lemma_adjacent(s: Seq<FEv>, g: Seq<FEv>)
    ensures forall|j: int| 0 <= j < walk(s, g).len() - 1 ==> adjacent(#[trigger] walk(s, g)[j + 1], walk(s, g)[j]),
    decreases 2 * s.len() + g.len()
{
    let w = walk(s, g);
    if w.len() > 0 {
        let leave = g.len() > 0 && (s.len() == 0 || !pl_contains(g.last().payload, s.last().payload));
        let s2 = if leave { s } else { s.drop_last() };
        let g2 = if leave { g.drop_last() } else if iv(s.last()) { g.push(s.last()) } else { g };
        lemma_adjacent(s2, g2);
        let t = walk(s2, g2);
        assert(w == seq![w[0]] + t);
        if !leave && iv(s.last()) { assert(g2.drop_last() =~= g); }
        assert forall|j: int| 0 <= j < w.len() - 1 implies adjacent(#[trigger] w[j + 1], w[j]) by {
            if j > 0 { assert(w[j + 1] == t[j - 1 + 1] && w[j] == t[j - 1]); } else { assert(w[1] == t[0]); }
        }
    }
}
} // verus!
