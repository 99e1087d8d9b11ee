// C15: collapse_stacks
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fxmap.vx
//@include _rawopaque.vx
//@include _payload.vx contracts payload
//@include _event.vx contracts payload
//@include _nest.vx
//@include _light.vx
//@include _maps.vx
fn main() {}
//@grw $x:recv . map_or ( $$d , | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => $d } )
//@grw $x:recv . is_some_and ( | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => false } )
//@grw $x:recv . entry ( $$k ) . and_modify ( | $v:id | $body ) ==> match $x . get_mut ( ( $k ) . as_str ( ) ) { Some ( $v ) => $body None => { } }
//@grw $x:recv . entry ( $$k ) . or_default ( ) ==> $x . vx_entry_or_insert ( $k , 0 )
//@grw push_str ( & $$x . label [ .. ] ) ==> push_str ( vx_cow_str ( & $x . label ) )
//@grw "rustc" . to_owned ( ) ==> vx_to_owned ( "rustc" )
//@grw $x:place . stack_id . truncate ( $$n ) ==> vx_truncate ( & mut $x . stack_id , $n )
//@grw $x:recv . stack_id . len ( ) ==> vx_str_len ( $x . stack_id . as_str ( ) )
//@grw $x:recv . label . len ( ) ==> vx_str_len ( vx_cow_str ( & $x . label ) )
verus! {
//@item analyzeme/src/stack_collapse.rs :: struct PerThreadState
//@end
#[verifier::external_body]
pub fn vx_to_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// String::truncate: panics off a character boundary
#[verifier::external_body]
pub fn vx_truncate(s: &mut String, n: usize)
    requires exists|k: int| 0 <= k <= old(s)@.len() && encode_utf8(#[trigger] old(s)@.take(k)).len() == n,
    ensures forall|k: int| 0 <= k <= old(s)@.len() && encode_utf8(#[trigger] old(s)@.take(k)).len() == n ==> final(s)@ == old(s)@.take(k),
{ unimplemented!() }

// ---- what the numbers must be ----------------------------------------------------------------------------------------------
/// the labels of the interval's ancestors, outermost first, and its own
pub open spec fn path(s: Seq<EventV>, i: int) -> Seq<char>
    decreases s.len() - i
{
    if i >= s.len() { Seq::empty() } else {
        match parent(s, i) {
            Some(p) => if i < p < s.len() { path(s, p) + seq![';'] + s[i].label } else { Seq::empty() },
            None => "rustc"@ + seq![';'] + s[i].label,
        }
    }
}
pub open spec fn p_path(s: Seq<EventV>, k: Seq<char>) -> Pred { |i: int| path(s, i) == k }
pub open spec fn p_all() -> Pred { |i: int| true }
pub open spec fn p_top(s: Seq<EventV>) -> Pred { |i: int| parent(s, i) is None }
pub open spec fn p_top_of(s: Seq<EventV>, t: u32) -> Pred { |i: int| parent(s, i) is None && s[i].thread == t }
/// time spent in stack k, without its children
pub open spec fn expected(s: Seq<EventV>, k: Seq<char>, m: int) -> int { own(s, p_path(s, k), m) - kids(s, p_path(s, k), m) }
pub open spec fn has_path(s: Seq<EventV>, k: Seq<char>, m: int) -> bool { exists|i: int| m <= i < s.len() && iv(#[trigger] s[i]) && path(s, i) == k }
pub open spec fn c_get(c: Map<Seq<char>, u64>, k: Seq<char>) -> int { if c.dom().contains(k) { c[k] as int } else { 0 } }
pub open spec fn inv_counters(s: Seq<EventV>, c: Map<Seq<char>, u64>, m: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] c_get(c, k) == expected(s, k, m)
    &&& forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> has_path(s, k, m)
}
pub open spec fn vsum(c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>) -> int
    decreases ks.len()
{ if ks.len() == 0 { 0 } else { vsum(c, ks.drop_last()) + c[ks.last()] } }
pub open spec fn lists(c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>) -> bool { ks.no_duplicates() && (forall|k: Seq<char>| ks.contains(k) <==> #[trigger] c.dom().contains(k)) }
/// each stack has its time, once; "rustc" is what no event covers
pub open spec fn collapsed(s: Seq<EventV>, c: Map<Seq<char>, u64>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> k == "rustc"@ || has_path(s, k, 0)
    &&& forall|k: Seq<char>| k != "rustc"@ && #[trigger] c.dom().contains(k) ==> c[k] == expected(s, k, 0)
    &&& forall|ts: Seq<u32>| #[trigger] thread_list(s, ts) ==> c["rustc"@] == tsum(s, ts) - own(s, p_top(s), 0)
}
pub open spec fn adds_up(s: Seq<EventV>, c: Map<Seq<char>, u64>) -> bool {
    forall|ks: Seq<Seq<char>>, ts: Seq<u32>| #[trigger] lists(c, ks) && #[trigger] thread_list(s, ts) ==> vsum(c, ks) == tsum(s, ts)
}
pub proof fn lemma_path(s: Seq<EventV>, i: int)
    requires 0 <= i < s.len(),
    ensures path(s, i) == (match parent(s, i) { Some(p) => path(s, p), None => "rustc"@ }) + seq![';'] + s[i].label,
        path(s, i).len() >= 6, path(s, i).len() > 5, parent(s, i) matches Some(p) ==> i < p < s.len(),
    decreases s.len() - i
{
    reveal_strlit("rustc");
    lemma_parent_from(s, i, i + 1);
    if let Some(p) = parent(s, i) { lemma_path(s, p); }
}

// ---- sums ------------------------------------------------------------------------------------------------------------------
proof fn lemma_own_ext(s: Seq<EventV>, p: Pred, q: Pred, m: int)
    requires 0 <= m, forall|i: int| m <= i < s.len() ==> #[trigger] p(i) == q(i),
    ensures own(s, p, m) == own(s, q, m),
    decreases s.len() - m
{ if m < s.len() { lemma_own_ext(s, p, q, m + 1); assert(p(m) == q(m)); } }
proof fn lemma_own_le(s: Seq<EventV>, p: Pred, m: int)
    requires nested(s), 0 <= m,
    ensures 0 <= own(s, p, m) <= own(s, p_all(), m) <= own(s, p_all(), 0),
    decreases s.len() - m
{
    lemma_all_mono(s, m);
    if m < s.len() { lemma_own_le(s, p, m + 1); }
}
proof fn lemma_all_mono(s: Seq<EventV>, m: int)
    requires nested(s), 0 <= m,
    ensures own(s, p_all(), m) <= own(s, p_all(), 0),
    decreases m
{ if m > 0 { lemma_all_mono(s, m - 1); } }
proof fn lemma_kids_own(s: Seq<EventV>, p: Pred, q: Pred, m: int)
    requires 0 <= m, forall|i: int| m <= i < s.len() ==> #[trigger] q(i) == parent_sat(s, p, i),
    ensures kids(s, p, m) == own(s, q, m),
    decreases s.len() - m
{ if m < s.len() { lemma_kids_own(s, p, q, m + 1); assert(q(m) == parent_sat(s, p, m)); } }
/// sums over classes add up to the sum over everything that has a class
pub open spec fn of<A>(f: spec_fn(int) -> Option<A>, a: A) -> Pred { |i: int| f(i) == Some(a) }
pub open spec fn classed<A>(f: spec_fn(int) -> Option<A>) -> Pred { |i: int| f(i) is Some }
pub open spec fn parts<A>(s: Seq<EventV>, ks: Seq<A>, f: spec_fn(int) -> Option<A>, m: int) -> int
    decreases ks.len()
{ if ks.len() == 0 { 0 } else { parts(s, ks.drop_last(), f, m) + own(s, of(f, ks.last()), m) } }
proof fn lemma_parts_step<A>(s: Seq<EventV>, ks: Seq<A>, f: spec_fn(int) -> Option<A>, m: int)
    requires 0 <= m < s.len(), ks.no_duplicates(),
    ensures parts(s, ks, f, m) == parts(s, ks, f, m + 1) + (if iv(s[m]) && (f(m) matches Some(a) && ks.contains(a)) { ln(s[m]) } else { 0 }),
    decreases ks.len()
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        lemma_parts_step(s, d, f, m);
        if let Some(a) = f(m) {
            if ks.contains(a) && a != ks.last() { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == a; assert(d[i] == a); }
            if d.contains(a) { let i = choose|i: int| 0 <= i < d.len() && d[i] == a; assert(ks[i] == a); }
            if a == ks.last() { assert(ks[ks.len() - 1] == a); }
        }
    }
}
proof fn lemma_partition<A>(s: Seq<EventV>, ks: Seq<A>, f: spec_fn(int) -> Option<A>, m: int)
    requires 0 <= m, ks.no_duplicates(), forall|i: int| m <= i < s.len() && iv(#[trigger] s[i]) ==> (f(i) matches Some(a) ==> ks.contains(a)),
    ensures parts(s, ks, f, m) == own(s, classed(f), m),
    decreases s.len() - m
{
    if m < s.len() { lemma_partition(s, ks, f, m + 1); lemma_parts_step(s, ks, f, m); }
    else { lemma_parts_end(s, ks, f, m); }
}
proof fn lemma_parts_end<A>(s: Seq<EventV>, ks: Seq<A>, f: spec_fn(int) -> Option<A>, m: int)
    requires m >= s.len(),
    ensures parts(s, ks, f, m) == 0,
    decreases ks.len()
{ if ks.len() > 0 { lemma_parts_end(s, ks.drop_last(), f, m); } }

pub open spec fn f_path(s: Seq<EventV>) -> spec_fn(int) -> Option<Seq<char>> { |i: int| Some(path(s, i)) }
pub open spec fn f_parent(s: Seq<EventV>) -> spec_fn(int) -> Option<Seq<char>> { |i: int| match parent(s, i) { Some(q) => Some(path(s, q)), None => None } }
pub open spec fn f_top(s: Seq<EventV>) -> spec_fn(int) -> Option<u32> { |i: int| if parent(s, i) is None { Some(s[i].thread) } else { None } }
/// sum of what the stacks of the list have
pub open spec fn esum(s: Seq<EventV>, ks: Seq<Seq<char>>) -> int
    decreases ks.len()
{ if ks.len() == 0 { 0 } else { esum(s, ks.drop_last()) + expected(s, ks.last(), 0) } }
proof fn lemma_esum(s: Seq<EventV>, ks: Seq<Seq<char>>)
    ensures esum(s, ks) == parts(s, ks, f_path(s), 0) - parts(s, ks, f_parent(s), 0),
    decreases ks.len()
{
    if ks.len() > 0 {
        let k = ks.last();
        lemma_esum(s, ks.drop_last());
        lemma_own_ext(s, p_path(s, k), of(f_path(s), k), 0);
        lemma_kids_own(s, p_path(s, k), of(f_parent(s), k), 0);
    }
}
proof fn lemma_split_top(s: Seq<EventV>, m: int)
    requires 0 <= m,
    ensures own(s, classed(f_path(s)), m) == own(s, classed(f_parent(s)), m) + own(s, p_top(s), m),
    decreases s.len() - m
{ if m < s.len() { lemma_split_top(s, m + 1); } }
proof fn lemma_vsum_remove(c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>, k: int)
    requires 0 <= k < ks.len(),
    ensures vsum(c, ks) == vsum(c, ks.remove(k)) + c[ks[k]],
    decreases ks.len()
{
    if k < ks.len() - 1 {
        lemma_vsum_remove(c, ks.drop_last(), k);
        assert(ks.drop_last().remove(k) =~= ks.remove(k).drop_last());
        assert(ks.remove(k).last() == ks.last());
    } else { assert(ks.remove(k) =~= ks.drop_last()); }
}
proof fn lemma_vsum_esum(s: Seq<EventV>, c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ks.len() ==> c[#[trigger] ks[i]] == expected(s, ks[i], 0),
    ensures vsum(c, ks) == esum(s, ks),
    decreases ks.len()
{ if ks.len() > 0 { lemma_vsum_esum(s, c, ks.drop_last()); } }
/// the numbers add up to the span of all threads
pub proof fn lemma_adds_up(s: Seq<EventV>, c: Map<Seq<char>, u64>)
    requires nested(s), collapsed(s, c),
    ensures adds_up(s, c), //# C15
{
    assert forall|ks: Seq<Seq<char>>, ts: Seq<u32>| #[trigger] lists(c, ks) && #[trigger] thread_list(s, ts) implies vsum(c, ks) == tsum(s, ts) by {
        let r = "rustc"@;
        assert(c.dom().contains(r));
        let k = choose|k: int| 0 <= k < ks.len() && ks[k] == r;
        let l = ks.remove(k);
        lemma_vsum_remove(c, ks, k);
        assert forall|i: int| 0 <= i < l.len() implies c[#[trigger] l[i]] == expected(s, l[i], 0) by {
            let j = if i < k { i } else { i + 1 };
            assert(l[i] == ks[j]);
            assert(ks.contains(ks[j]));
            assert(c.dom().contains(ks[j]));
        }
        lemma_vsum_esum(s, c, l);
        lemma_esum(s, l);
        assert(l.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
                assert(l[i] == ks[if i < k { i } else { i + 1 }] && l[j] == ks[if j < k { j } else { j + 1 }]);
            }
        }
        assert forall|i: int| 0 <= i < s.len() && iv(#[trigger] s[i]) implies l.contains(path(s, i)) by {
            lemma_path(s, i);
            reveal_strlit("rustc");
            let x = path(s, i);
            assert(has_path(s, x, 0));
            assert(c.dom().contains(x));
            let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x;
            assert(l[if j < k { j } else { j - 1 }] == x);
        }
        lemma_partition(s, l, f_path(s), 0);
        assert forall|i: int| 0 <= i < s.len() && iv(#[trigger] s[i]) implies (f_parent(s)(i) matches Some(a) ==> l.contains(a)) by {
            lemma_parent_from(s, i, i + 1);
            if let Some(q) = parent(s, i) { assert(iv(s[q])); }
        }
        lemma_partition(s, l, f_parent(s), 0);
        lemma_split_top(s, 0);
    }
}

// ---- top-level intervals of a thread are disjoint ---------------------------------------------------------------------------
pub open spec fn top(s: Seq<EventV>, t: u32, m: int) -> bool { iv(s[m]) && s[m].thread == t && parent(s, m) is None }
/// start of the first top-level interval of the thread from m on
pub open spec fn low_top(s: Seq<EventV>, t: u32, m: int) -> Option<int>
    decreases s.len() - m
{ if m >= s.len() { None } else if top(s, t, m) { Some(st(s[m])) } else { low_top(s, t, m + 1) } }
proof fn lemma_low_top(s: Seq<EventV>, t: u32, m: int)
    requires 0 <= m,
    ensures low_top(s, t, m) matches Some(x) ==> exists|c: int| m <= c < s.len() && #[trigger] top(s, t, c) && st(s[c]) == x,
    decreases s.len() - m
{ if m < s.len() && !top(s, t, m) { lemma_low_top(s, t, m + 1); } }
pub proof fn lemma_top_fits(s: Seq<EventV>, t: u32, m: int)
    requires nested(s), 0 <= m,
    ensures
        0 <= own(s, p_top_of(s, t), m),
        low_top(s, t, m) is None ==> own(s, p_top_of(s, t), m) == 0,
        low_top(s, t, m) matches Some(x) ==> (span(s, t, m) matches Some((a, b)) && a <= x && own(s, p_top_of(s, t), m) <= b - x),
    decreases s.len() - m
{
    if m < s.len() {
        lemma_top_fits(s, t, m + 1);
        lemma_span(s, t, m);
        lemma_span(s, t, m + 1);
        if top(s, t, m) {
            lemma_low_top(s, t, m + 1);
            if let Some(x) = low_top(s, t, m + 1) {
                let c = choose|c: int| m + 1 <= c < s.len() && #[trigger] top(s, t, c) && st(s[c]) == x;
                lemma_parent_from(s, m, m + 1);
                assert(nest2(s[m], s[c]));
                assert(!inside(s[c], s[m]));
            }
        }
    }
}
pub proof fn lemma_top_span(s: Seq<EventV>, t: u32)
    requires nested(s),
    ensures 0 <= own(s, p_top_of(s, t), 0) <= span_len(s, t),
{ lemma_top_fits(s, t, 0); lemma_span(s, t, 0); }
/// the last stored interval of a thread ends last
pub proof fn lemma_end(s: Seq<EventV>, t: u32, m: int)
    requires nested(s), 0 <= m < s.len(), iv(s[m]), s[m].thread == t, span(s, t, m + 1) is Some,
    ensures span(s, t, m + 1) matches Some((a, b)) && en(s[m]) <= b,
{
    lemma_span(s, t, m + 1);
    let i = choose|i: int| m + 1 <= i < s.len() && iv(#[trigger] s[i]) && s[i].thread == t;
    assert(nest2(s[m], s[i]));
}

// ---- state of the loop -------------------------------------------------------------------------------------------------------
pub open spec fn sid(s: Seq<EventV>, g: Seq<int>) -> Seq<char> { if g.len() == 0 { "rustc"@ } else { path(s, g.last()) } }
/// each open interval is the parent of the next
pub open spec fn link(s: Seq<EventV>, g: Seq<int>, j: int) -> bool { parent(s, g[j]) == (if j == 0 { None::<int> } else { Some(g[j - 1]) }) }
pub open spec fn chain(s: Seq<EventV>, g: Seq<int>) -> bool { forall|j: int| 0 <= j < g.len() ==> #[trigger] link(s, g, j) }
proof fn lemma_chain_pop(s: Seq<EventV>, g: Seq<int>)
    requires chain(s, g), g.len() > 0, 0 <= g.last() < s.len(),
    ensures chain(s, g.drop_last()), path(s, g.last()) == sid(s, g.drop_last()) + seq![';'] + s[g.last()].label,
{
    assert forall|j: int| 0 <= j < g.drop_last().len() implies #[trigger] link(s, g.drop_last(), j) by { assert(link(s, g, j)); }
    assert(link(s, g, g.len() - 1));
    lemma_path(s, g.last());
}
proof fn lemma_chain_push(s: Seq<EventV>, g: Seq<int>, m: int)
    requires chain(s, g), parent(s, m) == (if g.len() == 0 { None::<int> } else { Some(g.last()) }),
    ensures chain(s, g.push(m)),
{ assert forall|j: int| 0 <= j < g.push(m).len() implies #[trigger] link(s, g.push(m), j) by { if j < g.len() { assert(link(s, g, j)); } } }
pub open spec fn stack_is(s: Seq<EventV>, v: Seq<LightweightEvent>, g: Seq<int>) -> bool {
    v.len() == g.len() && forall|j: int| 0 <= j < g.len() ==> is_light(s, #[trigger] v[j], g[j])
}
pub open spec fn thread_ok(s: Seq<EventV>, t: u32, x: PerThreadState, g: Seq<int>, m: int) -> bool {
    &&& stack_is(s, x.stack@, g)
    &&& stack_ok(s, t, g, m, m)
    &&& chain(s, g)
    &&& x.stack_id@ == sid(s, g)
    &&& span(s, t, m) == Some((x.start@, x.end@))
    &&& x.total_event_time_nanos == own(s, p_top_of(s, t), m)
}
pub open spec fn inv_threads(s: Seq<EventV>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>, m: int) -> bool {
    &&& forall|t: u32| #[trigger] ts.dom().contains(t) ==> thread_ok(s, t, ts[t], gs[t], m)
    &&& forall|t: u32| #[trigger] ts.dom().contains(t) <==> span(s, t, m) is Some
}
proof fn lemma_start(s: Seq<EventV>)
    ensures inv_counters(s, Map::empty(), s.len() as int), inv_threads(s, Map::empty(), Map::empty(), s.len() as int),
{}
proof fn lemma_empty_ok(s: Seq<EventV>)
    ensures chain(s, Seq::empty()),
{}
proof fn lemma_stack_last(s: Seq<EventV>, t: u32, g: Seq<int>, m: int, pm: int)
    requires stack_ok(s, t, g, m, pm), g.len() > 0,
    ensures m <= g.last() < s.len(), iv(s[g.last()]), s[g.last()].thread == t,
{}
proof fn lemma_own_none(s: Seq<EventV>, t: u32, m: int)
    requires nested(s), 0 <= m, span(s, t, m) is None,
    ensures own(s, p_top_of(s, t), m) == 0,
{ lemma_top_fits(s, t, m); }
proof fn lemma_stack_begin(s: Seq<EventV>, t0: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>, m: int, g: Seq<int>)
    requires nested(s), 0 <= m < s.len(), inv_threads(s, t0, gs, m + 1), iv(s[m]),
        g == (if t0.dom().contains(s[m].thread) { gs[s[m].thread] } else { Seq::<int>::empty() }),
    ensures stack_ok(s, s[m].thread, g, m + 1, m),
        t0.dom().contains(s[m].thread) ==> thread_ok(s, s[m].thread, t0[s[m].thread], g, m + 1) && en(s[m]) <= t0[s[m].thread].end@,
        !t0.dom().contains(s[m].thread) ==> own(s, p_top_of(s, s[m].thread), m + 1) == 0 && span(s, s[m].thread, m + 1) is None,
{
    let t = s[m].thread;
    if t0.dom().contains(t) {
        assert(thread_ok(s, t, t0[t], gs[t], m + 1));
        lemma_stack_weaken(s, t, g, m + 1, m + 1);
        lemma_end(s, t, m);
    } else {
        lemma_span(s, t, m + 1);
        lemma_own_none(s, t, m + 1);
    }
}
/// an event that is no interval
proof fn lemma_skip(s: Seq<EventV>, c: Map<Seq<char>, u64>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>, m: int)
    requires nested(s), 0 <= m < s.len(), !iv(s[m]), inv_threads(s, ts, gs, m + 1), inv_counters(s, c, m + 1),
    ensures inv_threads(s, ts, gs, m), inv_counters(s, c, m), //# C15
{
    assert forall|t: u32| #[trigger] ts.dom().contains(t) implies thread_ok(s, t, ts[t], gs[t], m) by {
        assert(thread_ok(s, t, ts[t], gs[t], m + 1));
        lemma_stack_skip(s, t, gs[t], m);
    }
    assert forall|t: u32| #[trigger] ts.dom().contains(t) <==> span(s, t, m) is Some by {
        assert(ts.dom().contains(t) <==> span(s, t, m + 1) is Some);
    }
    assert forall|k: Seq<char>| #[trigger] c_get(c, k) == expected(s, k, m) by { assert(c_get(c, k) == expected(s, k, m + 1)); }
    assert forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> has_path(s, k, m) by { lemma_has_step(s, k, m); }
}
proof fn lemma_has_step(s: Seq<EventV>, k: Seq<char>, m: int)
    requires 0 <= m < s.len(),
    ensures has_path(s, k, m) <==> has_path(s, k, m + 1) || (iv(s[m]) && path(s, m) == k),
{
    if has_path(s, k, m + 1) { let i = choose|i: int| m + 1 <= i < s.len() && iv(#[trigger] s[i]) && path(s, i) == k; assert(m <= i); }
}
proof fn lemma_step(s: Seq<EventV>, c0: Map<Seq<char>, u64>, c: Map<Seq<char>, u64>, t0: Map<u32, PerThreadState>, ts: Map<u32, PerThreadState>,
        g0: Map<u32, Seq<int>>, gs: Map<u32, Seq<int>>, m: int)
    requires
        nested(s), 0 <= m < s.len(), iv(s[m]), inv_threads(s, t0, g0, m + 1), inv_counters(s, c0, m + 1),
        forall|k: Seq<char>| #[trigger] c_get(c, k) == c_get(c0, k) - (if parent_sat(s, p_path(s, k), m) { ln(s[m]) } else { 0 }) + (if path(s, m) == k { ln(s[m]) } else { 0 }),
        forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> c0.dom().contains(k) || k == path(s, m),
        ({
            let t = s[m].thread;
            &&& ts == t0.insert(t, ts[t])
            &&& gs == g0.insert(t, gs[t])
            &&& gs[t].len() > 0 && gs[t].last() == m
            &&& stack_ok(s, t, gs[t].drop_last(), m + 1, m)
            &&& thread_ok(s, t, ts[t], gs[t], m)
        }),
    ensures inv_threads(s, ts, gs, m), inv_counters(s, c, m), //# C15
{
    assert forall|t: u32| #[trigger] ts.dom().contains(t) implies thread_ok(s, t, ts[t], gs[t], m) by {
        if t != s[m].thread {
            assert(t0.dom().contains(t));
            assert(thread_ok(s, t, t0[t], g0[t], m + 1));
            lemma_stack_skip(s, t, g0[t], m);
        }
    }
    assert forall|t: u32| #[trigger] ts.dom().contains(t) <==> span(s, t, m) is Some by {
        assert(t0.dom().contains(t) <==> span(s, t, m + 1) is Some);
    }
    assert forall|k: Seq<char>| #[trigger] c_get(c, k) == expected(s, k, m) by { assert(c_get(c0, k) == expected(s, k, m + 1)); }
    assert forall|k: Seq<char>| #[trigger] c.dom().contains(k) <==> has_path(s, k, m) by {
        lemma_has_step(s, k, m);
        assert(c0.dom().contains(k) <==> has_path(s, k, m + 1));
    }
}
/// a stack's number covers its next child, and stays in range
proof fn lemma_numbers(s: Seq<EventV>, c0: Map<Seq<char>, u64>, m: int)
    requires nested(s), 0 <= m < s.len(), iv(s[m]), inv_counters(s, c0, m + 1), own(s, p_all(), 0) <= u64::MAX,
    ensures
        0 <= ln(s[m]) <= u64::MAX,
        parent(s, m) matches Some(q) ==> c0.dom().contains(path(s, q)) && c0[path(s, q)] >= ln(s[m]),
        c_get(c0, path(s, m)) + ln(s[m]) <= u64::MAX,
        own(s, p_top_of(s, s[m].thread), m + 1) + ln(s[m]) <= u64::MAX,
{
    lemma_parent_from(s, m, m + 1);
    lemma_own_le(s, p_all(), m);
    lemma_own_le(s, p_all(), m + 1);
    let k = path(s, m);
    lemma_own_le(s, p_path(s, k), m + 1);
    lemma_slack_nonneg(s, p_path(s, k), m + 1);
    assert(c_get(c0, k) == expected(s, k, m + 1));
    lemma_kids_nonneg(s, p_path(s, k), m + 1);
    lemma_own_le(s, p_top_of(s, s[m].thread), m + 1);
    if let Some(q) = parent(s, m) {
        let k = path(s, q);
        lemma_room(s, p_path(s, k), m);
        assert(c_get(c0, k) == expected(s, k, m + 1));
        assert(has_path(s, k, m + 1)) by { assert(iv(s[q]) && path(s, q) == k); }
        assert(c0.dom().contains(k));
    }
}
proof fn lemma_top_step(s: Seq<EventV>, t: u32, m: int)
    requires 0 <= m < s.len(), iv(s[m]), s[m].thread == t,
    ensures own(s, p_top_of(s, t), m) == own(s, p_top_of(s, t), m + 1) + (if parent(s, m) is None { ln(s[m]) } else { 0 }),
{}
proof fn lemma_kids_nonneg(s: Seq<EventV>, p: Pred, m: int)
    requires nested(s), 0 <= m,
    ensures kids(s, p, m) >= 0,
    decreases s.len() - m
{ if m < s.len() { lemma_kids_nonneg(s, p, m + 1); } }
/// the number of bytes of a stack's text without its last label
proof fn lemma_cut(a: Seq<char>, l: Seq<char>)
    ensures ({ let x = a + seq![';'] + l; x.take(a.len() as int) == a && encode_utf8(x).len() == encode_utf8(a).len() + encode_utf8(l).len() + 1 }),
{
    let x = a + seq![';'] + l;
    assert(x.take(a.len() as int) =~= a);
    encode_utf8_concat(a + seq![';'], l);
    encode_utf8_concat(a, seq![';']);
    assert(encode_utf8(seq![';']).len() == 1) by { reveal_with_fuel(encode_utf8, 2); }
}

// ---- the gaps ------------------------------------------------------------------------------------------------------------------
pub open spec fn gaps(s: Seq<EventV>, ts: Seq<u32>) -> int
    decreases ts.len()
{ if ts.len() == 0 { 0 } else { gaps(s, ts.drop_last()) + span_len(s, ts.last()) - own(s, p_top_of(s, ts.last()), 0) } }
proof fn lemma_gaps(s: Seq<EventV>, ts: Seq<u32>)
    ensures gaps(s, ts) == tsum(s, ts) - parts(s, ts, f_top(s), 0),
    decreases ts.len()
{
    if ts.len() > 0 {
        lemma_gaps(s, ts.drop_last());
        lemma_own_ext(s, p_top_of(s, ts.last()), of(f_top(s), ts.last()), 0);
    }
}
proof fn lemma_tsum_mono(s: Seq<EventV>, ts: Seq<u32>, i: int)
    requires nested(s), 0 <= i <= ts.len(),
    ensures 0 <= gaps(s, ts.take(i)) <= tsum(s, ts.take(i)) <= tsum(s, ts),
    decreases ts.len() + ts.len() - i
{
    if i < ts.len() {
        lemma_tsum_mono(s, ts, i + 1);
        assert(ts.take(i + 1).drop_last() =~= ts.take(i));
        lemma_top_span(s, ts[i]);
    } else { assert(ts.take(i) =~= ts); }
    lemma_gaps_le(s, ts.take(i));
}
proof fn lemma_gaps_le(s: Seq<EventV>, ts: Seq<u32>)
    requires nested(s),
    ensures 0 <= gaps(s, ts) <= tsum(s, ts),
    decreases ts.len()
{ if ts.len() > 0 { lemma_gaps_le(s, ts.drop_last()); lemma_top_span(s, ts.last()); } }
proof fn lemma_order_is_list(s: Seq<EventV>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>)
    requires inv_threads(s, ts, gs, 0),
    ensures thread_list(s, vx_key_order(ts)),
{
    axiom_key_order(ts);
    let k = vx_key_order(ts);
    assert forall|t: u32| k.contains(t) <==> (#[trigger] span(s, t, 0)) is Some by { assert(ts.dom().contains(t) <==> span(s, t, 0) is Some); }
}
proof fn lemma_of_thread(s: Seq<EventV>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>, t: u32)
    requires nested(s), inv_threads(s, ts, gs, 0), ts.dom().contains(t),
    ensures ts[t].start@ <= ts[t].end@, span_len(s, t) == ts[t].end@ - ts[t].start@, ts[t].total_event_time_nanos == own(s, p_top_of(s, t), 0),
{
    assert(thread_ok(s, t, ts[t], gs[t], 0));
    lemma_span(s, t, 0);
}
proof fn lemma_gap_step(s: Seq<EventV>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>, i: int)
    requires nested(s), inv_threads(s, ts, gs, 0), 0 <= i < vx_key_order(ts).len(),
    ensures ({
        let k = vx_key_order(ts);
        let x = ts[k[i]];
        &&& x.start@ <= x.end@ && x.total_event_time_nanos <= x.end@ - x.start@
        &&& gaps(s, k.take(i + 1)) == gaps(s, k.take(i)) + (x.end@ - x.start@) - x.total_event_time_nanos
        &&& x.end@ - x.start@ <= tsum(s, k)
        &&& gaps(s, k.take(i + 1)) <= tsum(s, k)
    })
{
    hide(inv_threads);
    let k = vx_key_order(ts);
    assert(ts.dom().contains(k[i])) by { axiom_key_order(ts); assert(k.contains(k[i])); }
    lemma_of_thread(s, ts, gs, k[i]);
    lemma_top_span(s, k[i]);
    assert(k.take(i + 1).drop_last() =~= k.take(i));
    lemma_tsum_mono(s, k, i);
    lemma_tsum_mono(s, k, i + 1);
}
proof fn lemma_result(s: Seq<EventV>, c: Map<Seq<char>, u64>, r: Map<Seq<char>, u64>, ts: Map<u32, PerThreadState>, gs: Map<u32, Seq<int>>)
    requires nested(s), inv_threads(s, ts, gs, 0), inv_counters(s, c, 0), r == c.insert("rustc"@, r["rustc"@]), r["rustc"@] == gaps(s, vx_key_order(ts)),
    ensures collapsed(s, r), adds_up(s, r), //# C15
{
    reveal_strlit("rustc");
    let k = vx_key_order(ts);
    lemma_order_is_list(s, ts, gs);
    assert forall|i: int| 0 <= i < s.len() && iv(#[trigger] s[i]) implies (f_top(s)(i) matches Some(a) ==> k.contains(a)) by {
        lemma_span(s, s[i].thread, 0);
        assert(span(s, s[i].thread, 0) is Some);
    }
    lemma_partition(s, k, f_top(s), 0);
    lemma_own_ext(s, classed(f_top(s)), p_top(s), 0);
    lemma_gaps(s, k);
    assert forall|l: Seq<u32>| #[trigger] thread_list(s, l) implies r["rustc"@] == tsum(s, l) - own(s, p_top(s), 0) by {
        assert forall|t: u32| k.contains(t) <==> l.contains(t) by { assert(k.contains(t) <==> span(s, t, 0) is Some); assert(l.contains(t) <==> span(s, t, 0) is Some); }
        lemma_tsum_any(s, k, l);
    }
    assert forall|x: Seq<char>| x != "rustc"@ && #[trigger] r.dom().contains(x) implies r[x] == expected(s, x, 0) by { assert(c.dom().contains(x)); assert(c_get(c, x) == expected(s, x, 0)); }
    assert forall|x: Seq<char>| #[trigger] r.dom().contains(x) <==> x == "rustc"@ || has_path(s, x, 0) by { assert(c.dom().contains(x) <==> has_path(s, x, 0)); }
    lemma_adds_up(s, r);
}
//@item analyzeme/src/stack_collapse.rs :: fn collapse_stacks
//@generics
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(100)]
//@rwsig FxHashMap < String , u64 > ==> StrMap < u64 >
//@spec
    requires
        nested(profiling_data.events()),
        profiling_data.events().len() <= usize::MAX,
        own(profiling_data.events(), p_all(), 0) <= u64::MAX,
        forall|ts: Seq<u32>| #[trigger] thread_list(profiling_data.events(), ts) ==> tsum(profiling_data.events(), ts) <= u64::MAX,
    ensures
        collapsed(profiling_data.events(), r@), //# C15
        adds_up(profiling_data.events(), r@), //# C15
//@rw FxHashMap :: default ( ) ==> StrMap :: default ( )
//@rw for $x:id in it : $$s . filter ( | $e:id | $$p ) $inv $body ==> for $x in it : $s $inv { let vx_keep = { let $e = & $x ; $p } ; if vx_keep $body else { proof { lemma_skip ( s , counters @ , threads @ , gs , n - it . index @ - 1 ) ; } } }
//@start
    hide(inv_threads); hide(inv_counters); hide(stack_ok); hide(chain); hide(nested); hide(collapsed); hide(adds_up); hide(path); hide(parent); hide(own); hide(kids); hide(expected);
    let ghost s = profiling_data.events();
    let ghost n = s.len() as int;
    let ghost mut gs: Map<u32, Seq<int>> = Map::empty();
    proof { lemma_start(s); lemma_empty_ok(s); }
//@loopbind 0 it
//@loop 0
    invariant
        it.seq().len() == n,
        forall|i: int| 0 <= i < n ==> is_light(s, #[trigger] it.seq()[i], n - 1 - i),
        inv_counters(s, counters@, n - it.index@), //# C15
        inv_threads(s, threads@, gs, n - it.index@), //# C15
//@loopstart 0
    let ghost m = n - it.index@ - 1;
    let ghost cur = s[m];
    let ghost c0 = counters@;
    let ghost t0 = threads@;
    let ghost t = cur.thread;
    let ghost mut g: Seq<int> = if t0.dom().contains(t) { gs[t] } else { Seq::empty() };
    proof {
        assert(is_light(s, current_event, m));
        assert(0 <= m < n);
        lemma_stack_begin(s, t0, gs, m, g);
        lemma_numbers(s, c0, m);
    }
//@loop 1
    invariant
        stack_is(s, thread.stack@, g),
        stack_ok(s, t, g, m + 1, m), //# C15
        chain(s, g),
        thread.stack_id@ == sid(s, g), //# C15
        thread.start@ == (if t0.dom().contains(t) && t0[t].start@ < st(cur) { t0[t].start@ } else { st(cur) }),
        thread.end == (if t0.dom().contains(t) { t0[t].end } else { end }),
        thread.total_event_time_nanos == own(s, p_top_of(s, t), m + 1),
    ensures
        g.len() == 0 || inside(s[g.last()], cur), //# C15
    decreases g.len(),
//@loopstart 1
    proof {
        assert(is_light(s, current_top, g.last()));
        let l = g.last();
        lemma_stack_last(s, t, g, m + 1, m);
        lemma_chain_pop(s, g);
        lemma_cut(sid(s, g.drop_last()), s[l].label);
        assert(path(s, l).take(sid(s, g.drop_last()).len() as int) == sid(s, g.drop_last()));
    }
//@loopend 1
    proof { lemma_stack_pop(s, t, g, m); g = g.drop_last(); }
//@afterloop 1
    proof {
        if g.len() > 0 { lemma_stack_last(s, t, g, m + 1, m); }
        assert(g.len() == 0 || inside(s[g.last()], cur));
        lemma_stack_top(s, t, g, m);
        lemma_path(s, m);
        assert(path(s, m) == sid(s, g) + seq![';'] + cur.label);
        if g.len() > 0 { assert(is_light(s, thread.stack@.last(), g.last())); }
    }
//@before thread . stack_id . push
    let ghost c1 = counters@;
    proof {
        assert forall|k: Seq<char>| #[trigger] c_get(c1, k) == c_get(c0, k) - (if parent_sat(s, p_path(s, k), m) { ln(cur) } else { 0 }) by {}
        assert(c1.dom() =~= c0.dom());
        assert(sid(s, g).push(';') + cur.label =~= path(s, m));
        assert(c_get(c1, path(s, m)) + ln(cur) <= u64::MAX);
        assert(thread.total_event_time_nanos == own(s, p_top_of(s, t), m)) by { lemma_top_step(s, t, m); }
    }
//@loopend 0
    proof {
        let g0 = gs;
        let h = g.push(m);
        gs = gs.insert(t, h);
        assert(h.drop_last() =~= g);
        lemma_stack_push(s, t, g, m);
        assert(threads@ =~= t0.insert(t, threads@[t]));
        let x = threads@[t];
        assert(x.stack_id@ =~= path(s, m));
        assert(stack_is(s, x.stack@, h));
        lemma_chain_push(s, g, m);
        assert(span(s, t, m) == Some((x.start@, x.end@)));
        assert(thread_ok(s, t, x, h, m));
        assert forall|k: Seq<char>| #[trigger] c_get(counters@, k) == c_get(c1, k) + (if path(s, m) == k { ln(cur) } else { 0 }) by {}
        lemma_step(s, c0, counters@, t0, threads@, g0, gs, m);
    }
//@before let mut rustc_time
    let ghost cf = counters@;
    proof { lemma_order_is_list(s, threads@, gs); }
//@loopbind 2 it
//@loop 2
    invariant
        it.seq().len() == vx_key_order(threads@).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == threads@[vx_key_order(threads@)[i]],
        inv_threads(s, threads@, gs, 0), nested(s),
        rustc_time == gaps(s, vx_key_order(threads@).take(it.index@ as int)), //# C15
//@loopstart 2
    proof { lemma_gap_step(s, threads@, gs, it.index@ as int); lemma_tsum_mono(s, vx_key_order(threads@), it.index@ as int); }
//@before counters . insert
    proof { assert(vx_key_order(threads@).take(vx_key_order(threads@).len() as int) =~= vx_key_order(threads@)); }
//@tail vx_ret
    proof { lemma_result(s, cf, vx_ret@, threads@, gs); }
//@end
} // verus!
//@include _fmt.vx
//@grw Box < dyn Error + Send + Sync >> ==> VxError >
//@grw Opt :: parse ( ) ==> vx_parse ( )
//@grw BufWriter :: new ( $$x ) ==> ( $x )
//@grw File :: create ( $$x ) ==> vx_create ( $x , Tracked ( & mut * d ) )
//@grw $x:recv . vx_write_text ( $$a ) ==> $x . vx_write_text ( $a , Tracked ( & mut * d ) )
verus! {
// ---- the programs: stack_collapse writes the lines, flamegraph hands them to inferno ------------------------------------------
#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
pub struct VxError { x: u8 }
//@item stack_collapse/src/main.rs :: struct Opt
//@end
pub uninterp spec fn command_line() -> Opt;
#[verifier::external_body]
pub fn vx_parse() -> (r: Opt) ensures r == command_line() { unimplemented!() }
/// the profile stored under a path
pub uninterp spec fn profile_at(p: PathBuf) -> ProfilingData;
impl ProfilingData {
    /// reading the file
    #[verifier::external_body]
    pub fn new(p: &PathBuf) -> (r: Result<ProfilingData, VxError>)
        ensures r matches Ok(d) ==> d == profile_at(*p)
    { unimplemented!() }
}
/// text files by name
pub tracked struct Disk { pub ghost files: Map<Seq<char>, Seq<char>> }
pub open spec fn others_same(a: Map<Seq<char>, Seq<char>>, b: Map<Seq<char>, Seq<char>>, p: Seq<char>) -> bool { a.remove(p) == b.remove(p) }
/// BufWriter<File>: what is written is in the file when the program ends
#[verifier::external_body]
pub struct VxFile { x: u8 }
impl VxFile {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_write_text(&mut self, s: &str, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>)
        requires old(d).files.dom().contains(old(self).name()),
        ensures
            final(self).name() == old(self).name(),
            others_same(old(d).files, final(d).files, old(self).name()),
            r is Ok ==> final(d).files == old(d).files.insert(old(self).name(), old(d).files[old(self).name()] + s@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_create(p: &str, Tracked(d): Tracked<&mut Disk>) -> (r: Result<VxFile, VxError>)
    ensures
        others_same(old(d).files, final(d).files, p@),
        r matches Ok(f) ==> f.name() == p@ && final(d).files == old(d).files.insert(p@, Seq::<char>::empty()),
{ unimplemented!() }
impl<V> StrMap<V> {
    /// into_iter()
    #[verifier::external_body]
    pub fn vx_entries(self) -> (r: Vec<(String, V)>)
        ensures r@.len() == vx_key_order(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == vx_key_order(self@)[i] && r@[i].1 == self@[vx_key_order(self@)[i]]
    { unimplemented!() }
    /// iter()
    #[verifier::external_body]
    pub fn vx_entries_ref(&self) -> (r: Vec<(&String, &V)>)
        ensures r@.len() == vx_key_order(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == vx_key_order(self@)[i] && *r@[i].1 == self@[vx_key_order(self@)[i]]
    { unimplemented!() }
}
pub open spec fn shown_stack(c: Map<Seq<char>, u64>, k: Seq<char>) -> Seq<char> { k + " "@ + dec(c[k] as int) }
/// one line for each stack
pub open spec fn shown_stacks(c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { shown_stacks(c, ks, n - 1) + (shown_stack(c, ks[n - 1]) + "\n"@) } }
/// `t` lists every stack of the events once, with its time; the numbers add up to the span of all threads
pub open spec fn is_output(s: Seq<EventV>, t: Seq<char>) -> bool {
    exists|c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>| #[trigger] lists(c, ks) && collapsed(s, c) && adds_up(s, c) && t == shown_stacks(c, ks, ks.len() as int)
}
pub open spec fn lines_ok(s: Seq<EventV>, t: Seq<Seq<char>>) -> bool {
    exists|c: Map<Seq<char>, u64>, ks: Seq<Seq<char>>| #[trigger] lists(c, ks) && collapsed(s, c) && adds_up(s, c) && t == ks.map_values(|k: Seq<char>| shown_stack(c, k))
}
pub open spec fn collapsible(s: Seq<EventV>) -> bool {
    &&& nested(s)
    &&& s.len() <= usize::MAX
    &&& own(s, p_all(), 0) <= u64::MAX
    &&& forall|ts: Seq<u32>| #[trigger] thread_list(s, ts) ==> tsum(s, ts) <= u64::MAX
}
pub open spec fn given() -> ProfilingData { profile_at(command_line().file_prefix) }
//@item stack_collapse/src/main.rs :: fn main
//@name stack_collapse_main
//@params Tracked(d): Tracked<&mut Disk>
//@rw for ( $a:id , $b:id ) in $x:id $inv $body ==> let ghost vx_c = $x @ ; let vx_es = $x . vx_entries ( ) ; let mut vx_k : usize = 0 ; while vx_k < vx_es . len ( ) $inv { let $a = & vx_es [ vx_k ] . 0 ; let $b = vx_es [ vx_k ] . 1 ; vx_k += 1 ; $body }
//@rw for ( $a:id , $b:id ) in & $x:id $inv $body ==> let ghost vx_c = $x @ ; let vx_es = $x . vx_entries_ref ( ) ; let mut vx_k : usize = 0 ; while vx_k < vx_es . len ( ) $inv { let $a = vx_es [ vx_k ] . 0 ; let $b = vx_es [ vx_k ] . 1 ; vx_k += 1 ; $body }
//@ret r
//@spec
    requires collapsible(given().events()),
    ensures
        others_same(old(d).files, final(d).files, "out.stacks_folded"@), //# C15
        r is Ok ==> final(d).files.dom().contains("out.stacks_folded"@) && is_output(given().events(), final(d).files["out.stacks_folded"@]), //# C15
//@loop 0
    invariant
        0 <= vx_k <= vx_es@.len(), vx_es@.len() == vx_key_order(vx_c).len(),
        forall|i: int| 0 <= i < vx_es@.len() ==> (#[trigger] vx_es@[i]).0@ == vx_key_order(vx_c)[i] && vx_es@[i].1 == vx_c[vx_key_order(vx_c)[i]],
        file.name() == "out.stacks_folded"@, d.files.dom().contains(file.name()),
        others_same(old(d).files, d.files, file.name()),
        d.files[file.name()] == shown_stacks(vx_c, vx_key_order(vx_c), vx_k as int), //# C15
    decreases vx_es@.len() - vx_k
//@loopstart 0
    let ghost f0 = d.files[file.name()];
    let ghost vx_i = vx_k - 1;
//@loopend 0
    proof { assert(d.files[file.name()] =~= f0 + (shown_stack(vx_c, vx_key_order(vx_c)[vx_i]) + "\n"@)); }
//@tail vx_ret
    proof { axiom_key_order(vx_c); assert(lists(vx_c, vx_key_order(vx_c))); }
//@end

/// inferno::flamegraph::from_lines, its default options
#[verifier::external_body]
pub struct FlamegraphOptions { x: u8 }
impl FlamegraphOptions { #[verifier::external_body] pub fn default() -> FlamegraphOptions { unimplemented!() } }
/// the picture inferno draws of lines "stack number"
pub uninterp spec fn picture(l: Seq<Seq<char>>) -> Seq<char>;
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|t: String| t@) }
#[verifier::external_body]
pub fn vx_from_lines(o: &mut FlamegraphOptions, l: &Vec<String>, f: VxFile, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>)
    ensures
        others_same(old(d).files, final(d).files, f.name()),
        r is Ok ==> final(d).files == old(d).files.insert(f.name(), picture(texts(l@))),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_expect(r: Result<(), VxError>) ensures r is Ok { unimplemented!() }
//@item flamegraph/src/main.rs :: fn main
//@name flamegraph_main
//@params Tracked(d): Tracked<&mut Disk>
//@rw let $l:id = $c:id ( $$d ) . iter ( ) . map ( | ( $a:id , $b:id ) | $$e ) . collect :: < Vec < _ >> ( ) ; ==> let vx_m = $c ( $d ) ; let ghost vx_c = vx_m @ ; let vx_es = vx_m . vx_entries_ref ( ) ; let mut $l : Vec < String > = Vec :: new ( ) ; let mut vx_k : usize = 0 ; while vx_k < vx_es . len ( ) invariant 0 <= vx_k <= vx_es @ . len ( ) , lines_upto ( vx_c , $l @ , vx_k as int ) , vx_es_ok ( vx_c , vx_es @ ) , decreases vx_es @ . len ( ) - vx_k { let $a = vx_es [ vx_k ] . 0 ; let $b = vx_es [ vx_k ] . 1 ; vx_k += 1 ; $l . push ( $e ) ; proof { assert ( lines_upto ( vx_c , $l @ , vx_k as int ) ) ; } }
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_ref ( ) ) , $$f , ) . expect ( $$m ) ==> vx_expect ( vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_str ( ) ) , $$f , ) . expect ( $$m ) ==> vx_expect ( vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( String :: as_str ) , $$f , ) . expect ( $$m ) ==> vx_expect ( vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_ref ( ) ) , $$f ) . expect ( $$m ) ==> vx_expect ( vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_ref ( ) ) , $$f , ) ==> vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_str ( ) ) , $$f , ) ==> vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( String :: as_str ) , $$f , ) ==> vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) )
//@rw from_lines ( $$a , $x:id . iter ( ) . map ( | $s:id | $s . as_ref ( ) ) , $$f ) ==> vx_from_lines ( $a , & $x , $f , Tracked ( & mut * d ) )
//@ret r
//@spec
    requires collapsible(given().events()),
    ensures
        others_same(old(d).files, final(d).files, "rustc.svg"@), //# C15
        r is Ok ==> final(d).files.dom().contains("rustc.svg"@)
            && (exists|t: Seq<Seq<char>>| #[trigger] lines_ok(given().events(), t) && final(d).files["rustc.svg"@] == picture(t)), //# C15
//@tail vx_ret
    proof {
        axiom_key_order(vx_c);
        assert(lists(vx_c, vx_key_order(vx_c)));
        assert(texts(recorded_stacks@) =~= vx_key_order(vx_c).map_values(|k: Seq<char>| shown_stack(vx_c, k)));
        assert(lines_ok(given().events(), texts(recorded_stacks@)));
    }
//@end
pub open spec fn vx_es_ok(c: Map<Seq<char>, u64>, es: Seq<(&String, &u64)>) -> bool {
    es.len() == vx_key_order(c).len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0@ == vx_key_order(c)[i] && *es[i].1 == c[vx_key_order(c)[i]]
}
pub open spec fn lines_upto(c: Map<Seq<char>, u64>, l: Seq<String>, n: int) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i])@ =~= shown_stack(c, vx_key_order(c)[i])
}
} // verus!
