// C20, C26: crox
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fxmap.vx
//@include _rawopaque.vx
//@include _payload.vx contracts payload
//@include _event.vx contracts payload
//@include _header.vx
//@include _maps.vx
//@include _fullev.vx
//@include _tool.vx
//@include _jsonval.vx
//@include _fmt.vx
fn main() {}
//@grw analyzeme :: Event ==> Event
//@grw Box < dyn std :: error :: Error + Send + Sync >> ==> VxError >
//@grw std :: io :: Error ==> VxError
//@grw Opt :: parse ( ) ==> vx_parse ( )
//@grw fs :: read_dir ( $$p ) ==> vx_read_dir ( $p )
//@grw $x:id . extension ( ) . filter ( | $e:id | * $e:id == $$c ) . is_some ( ) ==> ( match $x . vx_extension ( ) { Some ( $e ) => vx_same_text ( & $e , $c ) , None => false } )
//@grw $x:recv . iter ( ) . chain ( $y:id . iter ( ) ) ==> vx_chain ( & $x , & $y )
//@grw $x:recv . label . clone ( ) . into_owned ( ) ==> vx_cow_string ( & $x . label )
//@grw $x:recv . event_kind . clone ( ) . into_owned ( ) ==> vx_cow_string ( & $x . event_kind )
//@grw $x:id . to_string ( ) ==> vx_cow_string ( $x )
//@grw $b . to_string ( ) ==> vx_same_string ( $b )
//@grw FxHashMap < String , String > ==> StrMap < String >
//@grw FxHashMap < String , String >> ==> StrMap < String > >
//@grw $x:recv . cmd . find ( $$p ) ==> vx_find ( $x . cmd . as_str ( ) , $p )
//@grw $x:recv . cmd . split_at ( $$p ) ==> vx_split_at ( $x . cmd . as_str ( ) , $p )
//@grw $x:id . find ( $$p ) ==> vx_find ( $x , $p )
//@grw $x:id . split_at ( $$p ) ==> vx_split_at ( $x , $p )
//@grw last . len ( ) ==> vx_str_len ( last )
//@grw BufWriter :: new ( fs :: File :: create ( $$p ) ? ) ==> vx_create ( $p ) ?
//@grw serde_json :: Serializer :: new ( $$x ) ==> VxSerializer :: vx_new ( $x )
//@grw $x:id . serialize_seq ( None ) ==> $x . vx_serialize_seq ( )
verus! {
//@item crox/src/main.rs :: struct Opt
//@end
#[verifier::external_body]
pub fn vx_cow_string(c: &Cow<'_, str>) -> (r: String) ensures r@ == c@ { unimplemented!() }
pub fn vx_same_string(s: String) -> (r: String) ensures r == s { s }

// ---- C20: collapsing threads -----------------------------------------------------------------------------------------------
pub open spec fn lo(e: FEv) -> int { if st(e) <= en(e) { st(e) } else { en(e) } }
pub open spec fn hi(e: FEv) -> int { if st(e) <= en(e) { en(e) } else { st(e) } }
pub open spec fn spans(s: Seq<FEv>) -> Map<u32, (int, int)>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else {
        let m = spans(s.drop_last());
        let e = s.last();
        if !timed(e) { m }
        else if m.dom().contains(e.thread) { m.insert(e.thread, (if lo(e) < m[e.thread].0 { lo(e) } else { m[e.thread].0 }, if hi(e) > m[e.thread].1 { hi(e) } else { m[e.thread].1 })) }
        else { m.insert(e.thread, (lo(e), hi(e))) }
    }
}
/// the span of a thread covers its timed events
pub proof fn lemma_spans(s: Seq<FEv>)
    ensures
        forall|i: int| 0 <= i < s.len() && timed(#[trigger] s[i]) ==> spans(s).dom().contains(s[i].thread) && spans(s)[s[i].thread].0 <= st(s[i]) && spans(s)[s[i].thread].0 <= en(s[i]) //# C20
            && st(s[i]) <= spans(s)[s[i].thread].1 && en(s[i]) <= spans(s)[s[i].thread].1, //# C20
        forall|t: u32| #[trigger] spans(s).dom().contains(t) ==> spans(s)[t].0 <= spans(s)[t].1 && exists|i: int| 0 <= i < s.len() && timed(#[trigger] s[i]) && s[i].thread == t, //# C20
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_spans(p);
        assert forall|i: int| 0 <= i < s.len() && timed(#[trigger] s[i]) implies spans(s).dom().contains(s[i].thread) && spans(s)[s[i].thread].0 <= st(s[i]) && spans(s)[s[i].thread].0 <= en(s[i])
            && st(s[i]) <= spans(s)[s[i].thread].1 && en(s[i]) <= spans(s)[s[i].thread].1 by { if i < p.len() { assert(p[i] == s[i]); } }
        assert forall|t: u32| #[trigger] spans(s).dom().contains(t) implies spans(s)[t].0 <= spans(s)[t].1 && exists|i: int| 0 <= i < s.len() && timed(#[trigger] s[i]) && s[i].thread == t by {
            if spans(p).dom().contains(t) { let i = choose|i: int| 0 <= i < p.len() && timed(#[trigger] p[i]) && p[i].thread == t; assert(s[i] == p[i]); } else { assert(timed(s.last()) && s[s.len() - 1].thread == t); }
        }
    }
}
/// one of the two is over strictly before the other starts
pub open spec fn apart(a: (int, int), b: (int, int)) -> bool { a.1 < b.0 || b.1 < a.0 }
/// a valid renaming of the threads with these spans
pub open spec fn collapsed(sp: Map<u32, (int, int)>, m: Map<u32, u32>) -> bool {
    &&& m.dom() == sp.dom()
    &&& consecutive(m)
    &&& forall|a: u32, b: u32| #![trigger m[a], m[b]] m.dom().contains(a) && m.dom().contains(b) && a != b && m[a] == m[b] ==> apart(sp[a], sp[b])
}
pub open spec fn ids_below(m: Map<u32, u32>, n: int) -> bool {
    (forall|t: u32| #[trigger] m.dom().contains(t) ==> m[t] < n) && (forall|c: u32| c < n ==> #[trigger] used(m, c))
}
pub open spec fn used(m: Map<u32, u32>, c: u32) -> bool { exists|t: u32| m.dom().contains(t) && #[trigger] m[t] == c }
pub open spec fn consecutive(m: Map<u32, u32>) -> bool { exists|n: int| #[trigger] ids_below(m, n) }
pub open spec fn wanted(opt: Opt, p: ProfilingData, m: Map<u32, u32>) -> bool {
    if opt.collapse_threads { collapsed(spans(p.events()), m) } else { m == Map::<u32, u32>::empty() }
}
pub type Pt = (SystemTime, SystemTime);
pub open spec fn pv(p: Pt) -> (int, int) { (p.0@, p.1@) }
pub open spec fn views(m: Map<u32, Pt>) -> Map<u32, (int, int)> { m.map_values(|p: Pt| pv(p)) }
pub open spec fn items_of<V>(m: Map<u32, V>, r: Seq<(u32, V)>) -> bool {
    &&& r.len() == m.dom().len()
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0) && m[r[i].0] == r[i].1
    &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
/// iter(): every entry once, in some order
#[verifier::external_body]
pub fn vx_entries<V>(m: &FxHashMap<u32, V>) -> (r: Vec<(u32, V)>)
    ensures items_of(m@, r@)
{ unimplemented!() }
/// Iterator::map / collect
pub fn vx_map_collect<T: Copy, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|t: T| #[trigger] f.requires((t,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{
    let mut r: Vec<U> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), r@.len() == i, forall|t: T| #[trigger] f.requires((t,)), forall|j: int| 0 <= j < i ==> f.ensures((v@[j],), #[trigger] r@[j]),
        decreases v@.len() - i
    { let t = v[i]; r.push(f(t)); i += 1; }
    r
}
pub type Tk = (SystemTime, u32);
/// the threads of the map, each once, with the chosen end of its span
pub open spec fn listing(m: Map<u32, (int, int)>, first: bool, r: Seq<Tk>) -> bool {
    &&& r.len() == m.dom().len()
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).1 != (#[trigger] r[j]).1
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).1) && r[i].0@ == (if first { m[r[i].1].0 } else { m[r[i].1].1 })
    &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == k
}
pub open spec fn picked(e: Seq<(u32, Pt)>, first: bool, r: Seq<Tk>) -> bool {
    r.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] r[i] == (if first { e[i].1.0 } else { e[i].1.1 }, e[i].0)
}
proof fn lemma_listing(m: Map<u32, Pt>, first: bool, r: Seq<Tk>)
    requires exists|e: Seq<(u32, Pt)>| #[trigger] items_of(m, e) && picked(e, first, r),
    ensures listing(views(m), first, r),
{
    let e = choose|e: Seq<(u32, Pt)>| #[trigger] items_of(m, e) && picked(e, first, r);
    assert(views(m).dom() =~= m.dom());
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).1 != (#[trigger] r[j]).1 by { assert(e[i].0 != e[j].0); }
    assert forall|i: int| 0 <= i < r.len() implies views(m).dom().contains((#[trigger] r[i]).1) && r[i].0@ == (if first { views(m)[r[i].1].0 } else { views(m)[r[i].1].1 }) by { assert(m.dom().contains(e[i].0)); }
    assert forall|k: u32| #[trigger] views(m).dom().contains(k) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 == k by {
        assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(r[i].1 == k);
    }
}
pub open spec fn rearranges(p: Seq<int>, n: nat) -> bool {
    p.len() == n && p.no_duplicates() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j))
}
pub open spec fn ascends(r: Seq<Tk>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ <= (#[trigger] r[j]).0@ }
/// slice::sort_unstable_by_key, sort_by_key with the time as the key
#[verifier::external_body]
pub fn vx_sort_by_time<F: Fn(&Tk) -> SystemTime>(v: &mut Vec<Tk>, f: F)
    requires forall|a: &Tk| #[trigger] f.requires((a,)), forall|a: &Tk, o: SystemTime| #[trigger] f.ensures((a,), o) ==> o@ == a.0@,
    ensures exists|p: Seq<int>| #[trigger] rearranges(p, old(v)@.len()) && final(v)@ == p.map_values(|i: int| old(v)@[i]), ascends(final(v)@),
{ unimplemented!() }
proof fn lemma_sorted(m: Map<u32, (int, int)>, first: bool, r: Seq<Tk>, q: Seq<Tk>)
    requires listing(m, first, r), exists|p: Seq<int>| #[trigger] rearranges(p, r.len()) && q == p.map_values(|i: int| r[i]),
    ensures listing(m, first, q),
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, r.len()) && q == p.map_values(|i: int| r[i]);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).1 != (#[trigger] q[j]).1 by { assert(p[i] != p[j]); if p[i] < p[j] { assert(r[p[i]].1 != r[p[j]].1); } else { assert(r[p[j]].1 != r[p[i]].1); } }
    assert forall|k: u32| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).1 == k by {
        let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).1 == k; assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(q[i].1 == k);
    }
}
/// std::iter::Peekable over a slice
#[verifier::external_body]
pub struct VxPeek<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> VxPeek<'a> {
    pub uninterp spec fn left(&self) -> Seq<Tk>;
    #[verifier::external_body]
    pub fn vx_new(v: &'a Vec<Tk>) -> (r: Self) ensures r.left() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&'a Tk>)
        ensures final(self).left() == old(self).left(), match r { Some(e) => old(self).left().len() > 0 && *e == old(self).left()[0], None => old(self).left().len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Tk>)
        ensures match r { Some(e) => old(self).left().len() > 0 && *e == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    { unimplemented!() }
}
/// i threads placed in order s of their starts, the first c of order e of the ends taken over
pub open spec fn placed(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, i: int, c: int, n: int) -> bool {
    &&& 0 <= c <= i <= s.len() && 0 <= n <= i && c + n == i
    &&& listing(sp, true, s) && listing(sp, false, e) && ascends(s) && ascends(e)
    &&& forall|t: u32| #[trigger] sp.dom().contains(t) ==> sp[t].0 <= sp[t].1
    &&& forall|t: u32| #[trigger] m.dom().contains(t) <==> exists|j: int| 0 <= j < i && (#[trigger] s[j]).1 == t
    &&& ids_below(m, n)
    &&& forall|a: u32, b: u32| #![trigger m[a], m[b]] m.dom().contains(a) && m.dom().contains(b) && a != b && m[a] == m[b] ==> apart(sp[a], sp[b])
        && (taken(e, c, a) || taken(e, c, b)) && (!taken(e, c, b) ==> sp[a].1 < sp[b].0)
}
pub open spec fn taken(e: Seq<Tk>, c: int, t: u32) -> bool { exists|j: int| 0 <= j < c && (#[trigger] e[j]).1 == t }
proof fn lemma_place_init(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>)
    requires listing(sp, true, s), listing(sp, false, e), ascends(s), ascends(e), forall|t: u32| #[trigger] sp.dom().contains(t) ==> sp[t].0 <= sp[t].1,
    ensures placed(sp, s, e, Map::<u32, u32>::empty(), 0, 0, 0), e.subrange(0, e.len() as int) == e,
{ assert(e.subrange(0, e.len() as int) =~= e); }
proof fn lemma_left(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, i: int, c: int, n: int)
    requires placed(sp, s, e, m, i, c, n), i < s.len(),
    ensures c < e.len(), e.subrange(c, e.len() as int)[0] == e[c], e.subrange(c, e.len() as int).drop_first() == e.subrange(c + 1, e.len() as int), sp.dom().contains(s[i].1), sp.dom().contains(e[c].1),
        s[i].0@ > e[c].0@ ==> m.dom().contains(e[c].1),
{
    assert(e.subrange(c, e.len() as int).drop_first() =~= e.subrange(c + 1, e.len() as int));
    assert(sp.dom().contains(s[i].1)); assert(sp.dom().contains(e[c].1));
    if s[i].0@ > e[c].0@ {
        let q = e[c].1;
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == q;
        if j >= i { if j > i { assert(s[i].0@ <= s[j].0@); } assert(false); }
    }
}
proof fn lemma_place_new(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, i: int, c: int, n: int)
    requires placed(sp, s, e, m, i, c, n), i < s.len(), n < u32::MAX,
    ensures placed(sp, s, e, m.insert(s[i].1, n as u32), i + 1, c, n + 1), //# C20
{
    let x = s[i].1;
    let w = m.insert(x, n as u32);
    lemma_fresh(sp, s, e, m, i, c, n);
    assert forall|t: u32| #[trigger] w.dom().contains(t) <==> exists|j: int| 0 <= j < i + 1 && (#[trigger] s[j]).1 == t by { if t != x && w.dom().contains(t) { assert(m.dom().contains(t)); let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).1 == t; assert(s[j].1 == t); } }
    assert forall|k: u32| k < n + 1 implies #[trigger] used(w, k) by {
        if k < n { assert(used(m, k)); let t = choose|t: u32| m.dom().contains(t) && #[trigger] m[t] == k; assert(w[t] == k && w.dom().contains(t)); } else { assert(w[x] == k); }
    }
    assert forall|a: u32, b: u32| #![trigger w[a], w[b]] w.dom().contains(a) && w.dom().contains(b) && a != b && w[a] == w[b] implies apart(sp[a], sp[b])
        && (taken(e, c, a) || taken(e, c, b)) && (!taken(e, c, b) ==> sp[a].1 < sp[b].0) by { if a != x && b != x { assert(m[a] == m[b]); } else if a == x { assert(m.dom().contains(b)); assert(m[b] < n); } else { assert(m.dom().contains(a)); assert(m[a] < n); } }
}
/// the thread to be placed is not there yet
proof fn lemma_fresh(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, i: int, c: int, n: int)
    requires placed(sp, s, e, m, i, c, n), i < s.len(),
    ensures !m.dom().contains(s[i].1),
{ if m.dom().contains(s[i].1) { let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).1 == s[i].1; assert(s[j].1 != s[i].1); } }
proof fn lemma_place_old(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, i: int, c: int, n: int)
    requires placed(sp, s, e, m, i, c, n), i < s.len(), s[i].0@ > e[c].0@,
    ensures placed(sp, s, e, m.insert(s[i].1, m[e[c].1]), i + 1, c + 1, n), //# C20
{
    lemma_left(sp, s, e, m, i, c, n);
    lemma_fresh(sp, s, e, m, i, c, n);
    let x = s[i].1;
    let q = e[c].1;
    let id = m[q];
    let w = m.insert(x, id);
    assert(!taken(e, c, q)) by { if taken(e, c, q) { let j = choose|j: int| 0 <= j < c && (#[trigger] e[j]).1 == q; assert(e[j].1 != e[c].1); } }
    assert(!taken(e, c + 1, x)) by { if taken(e, c + 1, x) { let j = choose|j: int| 0 <= j < c + 1 && (#[trigger] e[j]).1 == x; if j < c { assert(e[j].0@ <= e[c].0@); } assert(sp[x].1 == e[j].0@); assert(false); } }
    assert forall|t: u32| taken(e, c, t) || t == q implies #[trigger] taken(e, c + 1, t) by { if t == q { assert(e[c].1 == t); } else { let j = choose|j: int| 0 <= j < c && (#[trigger] e[j]).1 == t; assert(e[j].1 == t && j < c + 1); } }
    assert forall|t: u32| #[trigger] taken(e, c + 1, t) implies taken(e, c, t) || t == q by { let j = choose|j: int| 0 <= j < c + 1 && (#[trigger] e[j]).1 == t; if j < c { assert(e[j].1 == t); } }
    assert forall|t: u32| #[trigger] w.dom().contains(t) <==> exists|j: int| 0 <= j < i + 1 && (#[trigger] s[j]).1 == t by { if t != x && w.dom().contains(t) { assert(m.dom().contains(t)); let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).1 == t; assert(s[j].1 == t); } }
    assert forall|k: u32| k < n implies #[trigger] used(w, k) by { assert(used(m, k)); let t = choose|t: u32| m.dom().contains(t) && #[trigger] m[t] == k; assert(w[t] == k && w.dom().contains(t)); }
    assert forall|a: u32, b: u32| #![trigger w[a], w[b]] w.dom().contains(a) && w.dom().contains(b) && a != b && w[a] == w[b] implies apart(sp[a], sp[b])
        && (taken(e, c + 1, a) || taken(e, c + 1, b)) && (!taken(e, c + 1, b) ==> sp[a].1 < sp[b].0) by {
        assert(sp.dom().contains(q) && sp[q].1 == e[c].0@ && sp[x].0 == s[i].0@ && sp[q].0 <= sp[q].1);
        if a != x && b != x { assert(m[a] == m[b]); if taken(e, c, b) { assert(taken(e, c + 1, b)); } if taken(e, c, a) { assert(taken(e, c + 1, a)); } }
        else {
            let o = if a == x { b } else { a };
            assert(m.dom().contains(o) && m[o] == id);
            if o != q { assert(m[o] == m[q]); assert(sp[o].1 < sp[q].0); assert(taken(e, c, o) || taken(e, c, q)); assert(taken(e, c + 1, o)); } else { assert(taken(e, c + 1, o)); }
            assert(sp[o].1 < sp[x].0);
        }
    }
}
proof fn lemma_place_done(sp: Map<u32, (int, int)>, s: Seq<Tk>, e: Seq<Tk>, m: Map<u32, u32>, c: int, n: int)
    requires placed(sp, s, e, m, s.len() as int, c, n),
    ensures collapsed(sp, m), //# C20
{
    assert forall|t: u32| #[trigger] m.dom().contains(t) <==> sp.dom().contains(t) by { if sp.dom().contains(t) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == t; } else if m.dom().contains(t) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == t; assert(sp.dom().contains(s[j].1)); } }
    assert(m.dom() =~= sp.dom());
}
proof fn lemma_span_step(s: Seq<FEv>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i],
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
//@item crox/src/main.rs :: fn timestamp_to_min_max
//@ret r
//@spec
    ensures
        r.0@ == (if ts_start(timestamp) <= ts_end(timestamp) { ts_start(timestamp) } else { ts_end(timestamp) }), //# C20
        r.1@ == (if ts_start(timestamp) <= ts_end(timestamp) { ts_end(timestamp) } else { ts_start(timestamp) }), //# C20
//@end
//@item crox/src/main.rs :: fn generate_thread_to_collapsed_thread_mapping
//@rw for ( $a:id , $b:id ) in $x:recv . iter ( ) . filter_map ( | $e:id | $$m ) $inv $body ==> { let vx_all = $x . iter ( ) ; let mut vx_i : usize = 0 ; while vx_i < vx_all . len ( ) $inv { let $e = & vx_all [ vx_i ] ; vx_i += 1 ; proof { lemma_span_step ( s , vx_i - 1 ) ; } if let Some ( ( $a , $b ) ) = $m { $body } } }
//@rw $m:recv . entry ( $k:id ) . and_modify ( | ( $a:id , $b:id ) | $body ) . or_insert_with ( || $$v ) ==> { if $m . contains_key ( & $k ) { let vx_old : ( SystemTime , SystemTime ) = * $m . get ( & $k ) . unwrap ( ) ; let mut vx_a = vx_old . 0 ; let mut vx_b = vx_old . 1 ; { let $a = & mut vx_a ; let $b = & mut vx_b ; $body } $m . insert ( $k , ( vx_a , vx_b ) ) ; } else { $m . insert ( $k , $v ) ; } }
//@rw $m:recv . iter ( ) . map ( | ( & $k:id , & ( $a:id , $b:id ) ) | $$e ) . collect :: < Vec < _ >> ( ) ==> vx_map_collect ( vx_entries ( & $m ) , | vx_t : ( u32 , ( SystemTime , SystemTime ) ) | -> ( vx_o : ( SystemTime , u32 ) ) ensures vx_o == ( { let ( $k , ( $a , $b ) ) = vx_t ; $e } ) { let ( $k , ( $a , $b ) ) = vx_t ; $e } )
//@rw $x:id . sort_unstable_by_key ( | & ( $a:id , $b:id ) | $$e ) ==> vx_sort_by_time ( & mut $x , | vx_t : & ( SystemTime , u32 ) | -> ( vx_o : SystemTime ) ensures vx_o == ( { let ( $a , $b ) = * vx_t ; $e } ) { let ( $a , $b ) = * vx_t ; $e } )
//@rw $x:id . sort_by_key ( | & ( $a:id , $b:id ) | $$e ) ==> vx_sort_by_time ( & mut $x , | vx_t : & ( SystemTime , u32 ) | -> ( vx_o : SystemTime ) ensures vx_o == ( { let ( $a , $b ) = * vx_t ; $e } ) { let ( $a , $b ) = * vx_t ; $e } )
//@rw $x:id . iter ( ) . peekable ( ) ==> VxPeek :: vx_new ( & $x )
//@rw for & ( $a:id , $b:id ) in $x:id . iter ( ) $inv $body ==> { let mut vx_k : usize = 0 ; while vx_k < $x . len ( ) $inv { let ( $a , $b ) = $x [ vx_k ] ; vx_k += 1 ; $body } }
//@ret r
//@spec
    requires spans(data.events()).dom().len() <= u32::MAX,
    ensures wanted(*opt, *data, r@), //# C20, C26
//@loop 0
    invariant
        vx_all@.len() == s.len(), s == data.events(), forall|i: int| 0 <= i < vx_all@.len() ==> is_light(s, #[trigger] vx_all@[i], i),
        0 <= vx_i <= s.len(), views(thread_start_and_end@) == spans(s.take(vx_i as int)), //# C20
    decreases s.len() - vx_i
//@loopstart 0
    let ghost m0 = thread_start_and_end@;
//@loopend 0
    proof {
        let e = s[vx_i - 1];
        assert(views(m0).dom() =~= m0.dom());
        if timed(e) && m0.dom().contains(e.thread) { assert(views(m0)[e.thread] == pv(m0[e.thread])); }
        assert(views(thread_start_and_end@) =~= spans(s.take(vx_i as int)));
    }
//@before let mut thread_start_and_end : $$t = $$x ;
    let ghost s = data.events();
//@before let mut end_and_thread = $$x ;
    let ghost sp = spans(s);
    proof { assert(s.take(s.len() as int) =~= s); assert(sp == views(thread_start_and_end@)); }
//@after let mut end_and_thread = $$x ;
    proof { lemma_listing(thread_start_and_end@, false, end_and_thread@); }
    let ghost e0 = end_and_thread@;
//@after let mut start_and_thread = $$x ;
    proof { lemma_listing(thread_start_and_end@, true, start_and_thread@); }
    let ghost s0 = start_and_thread@;
//@loop 1
    invariant
        vx_k <= s1.len(), start_and_thread@ == s1, s1.len() <= u32::MAX,
        c0 == vx_k - current_thread_id, next_end_iter.left() == e1.subrange(c0, e1.len() as int), placed(sp, s1, e1, thread_to_collapsed_thread@, vx_k as int, c0, current_thread_id as int), //# C20
        vx_k == s1.len() ==> collapsed(sp, thread_to_collapsed_thread@), //# C20
    decreases s1.len() - vx_k
//@loopstart 1
    proof { lemma_left(sp, s1, e1, thread_to_collapsed_thread@, vx_k - 1, c0, current_thread_id as int); }
    let ghost n0 = current_thread_id;
    let ghost m0 = thread_to_collapsed_thread@;
//@loopend 1
    proof { if current_thread_id == n0 { lemma_place_old(sp, s1, e1, m0, vx_k - 1, c0, n0 as int); c0 = c0 + 1; } else { lemma_place_new(sp, s1, e1, m0, vx_k - 1, c0, n0 as int); } if vx_k == s1.len() { lemma_place_done(sp, s1, e1, thread_to_collapsed_thread@, c0, current_thread_id as int); } }
//@before let mut current_thread_id = $$x ;
    let ghost s1 = start_and_thread@;
    let ghost e1 = end_and_thread@;
    let ghost mut c0: int = 0;
    proof { lemma_sorted(sp, true, s0, s1); lemma_sorted(sp, false, e0, e1); lemma_spans(s); lemma_place_init(sp, s1, e1); if s1.len() == 0 { lemma_place_done(sp, s1, e1, thread_to_collapsed_thread@, 0, 0); } }
//@end

// ---- C26: the trace --------------------------------------------------------------------------------------------------------
//@item measureme/src/file_header.rs :: const FILE_EXTENSION
//@rw & str ==> & 'static str
//@end
/// the command line
pub uninterp spec fn command_line() -> Opt;
#[verifier::external_body]
pub fn vx_parse() -> (r: Opt) ensures r == command_line() { unimplemented!() }
pub uninterp spec fn dir_listing(p: PathBuf) -> Seq<PathBuf>;
pub uninterp spec fn extension(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct VxDirEntry { x: u8 }
impl VxDirEntry {
    pub uninterp spec fn p(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r == self.p() { unimplemented!() }
}
/// the entries of a directory, any of which may be unreadable
#[verifier::external_body]
pub fn vx_read_dir(p: &PathBuf) -> (r: Result<Vec<Result<VxDirEntry, VxError>>, VxError>)
    ensures r matches Ok(v) ==> v@.len() == dir_listing(*p).len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i] matches Ok(e) ==> e.p() == dir_listing(*p)[i])
{ unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    pub fn vx_extension(&self) -> (r: Option<String>) ensures r is Some == extension(*self) is Some, r matches Some(t) ==> extension(*self) == Some(t@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn profiles_in(l: Seq<PathBuf>) -> Seq<PathBuf>
    decreases l.len()
{ if l.len() == 0 { l } else if extension(l.last()) == Some("mm_profdata"@) { profiles_in(l.drop_last()).push(l.last()) } else { profiles_in(l.drop_last()) } }
pub open spec fn dir_profiles(o: Opt) -> Seq<PathBuf> { match o.dir { Some(d) => profiles_in(dir_listing(d)), None => Seq::empty() } }
//@item crox/src/main.rs :: fn file_prefixes_in_dir
//@ret r
//@spec
    ensures r matches Ok(v) ==> v@ == dir_profiles(*opt), //# C26
//@loop 0
    invariant
        it.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] it.seq()[i] matches Ok(e) ==> e.p() == l[i]),
        opt.dir matches Some(d) && l == dir_listing(d),
        result@ == profiles_in(l.take(it.index@ as int)), //# C26
//@loopbind 0 it
//@loopstart 0
    proof { assert(l.take(it.index@ + 1).drop_last() =~= l.take(it.index@ as int)); assert(l.take(it.index@ + 1).last() == l[it.index@ as int]); }
//@before for
    let ghost l = dir_listing(*dir_path);
    proof { assert(l.take(0) =~= Seq::empty()); assert(l.take(l.len() as int) =~= l); }
//@end
/// Iterator::chain
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: Vec<&'a T>)
    ensures r@.len() == a@.len() + b@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == (a@ + b@)[i]
{ unimplemented!() }

pub open spec fn as_micros_js(d: Duration) -> Js { Js::Num(d@ as int / 1000) }
pub open spec fn as_micros_ok(d: Duration) -> bool { d@ <= 2 * u64::MAX }
//@item crox/src/main.rs :: fn as_micros
//@generics
//@rwsig s : S ==> s : VxJsonOut
//@retty Result<Value, VxError>
//@ret r
//@spec
    requires as_micros_ok(*d),
    ensures r matches Ok(v) ==> v@ == as_micros_js(*d), //# C26
//@end
//@item crox/src/main.rs :: enum EventType
//@serialize
//@end
//@item crox/src/main.rs :: struct Event
//@rw Event ==> VxEventOut
//@serialize VxEventOut
//@end
/// the texts of a map
pub open spec fn texts(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|t: String| t@) }
/// argument i under the name arg<i>
pub open spec fn args_map(a: Seq<Seq<char>>, n: int) -> Map<Seq<char>, Seq<char>>
    decreases n
{ if n <= 0 { Map::empty() } else { args_map(a, n - 1).insert("arg"@ + dec(n - 1), a[n - 1]) } }
pub open spec fn args_js(a: Seq<Seq<char>>) -> Js { if a.len() == 0 { Js::Null } else { Js::Obj(args_map(a, a.len() as int).map_values(|t: Seq<char>| Js::Text(t))) } }
proof fn lemma_dec(a: int, b: int)
    requires a >= 0, b >= 0, dec(a) == dec(b),
    ensures a == b,
    decreases a
{
    reveal_with_fuel(dec, 2);
    if a < 10 && b < 10 { assert(dec(a)[0] == digit(a) && dec(b)[0] == digit(b)); }
    else if a >= 10 && b >= 10 {
        assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10));
        lemma_dec(a / 10, b / 10);
        assert(dec(a).last() == digit(a % 10) && dec(b).last() == digit(b % 10));
    } else if a < 10 { lemma_dec_len(b / 10); assert(dec(b).len() >= 2); } else { lemma_dec_len(a / 10); assert(dec(a).len() >= 2); }
}
proof fn lemma_dec_len(a: int) ensures dec(a).len() >= 1 decreases a { if a >= 10 { lemma_dec_len(a / 10); } }
/// no argument is lost
pub proof fn lemma_args(a: Seq<Seq<char>>, n: int)
    requires 0 <= n <= a.len(),
    ensures
        forall|i: int| 0 <= i < n ==> args_map(a, n).dom().contains("arg"@ + #[trigger] dec(i)) && args_map(a, n)["arg"@ + dec(i)] == a[i], //# C26
        args_map(a, n).dom().len() == n, forall|k: Seq<char>| #[trigger] args_map(a, n).dom().contains(k) ==> exists|i: int| 0 <= i < n && k == "arg"@ + #[trigger] dec(i), //# C26
    decreases n
{
    if n > 0 {
        lemma_args(a, n - 1);
        let k = "arg"@ + dec(n - 1);
        assert forall|i: int| 0 <= i < n - 1 implies "arg"@ + #[trigger] dec(i) != k by { if "arg"@ + dec(i) == k { assert(dec(i) =~= ("arg"@ + dec(i)).skip("arg"@.len() as int)); assert(dec(n - 1) =~= k.skip("arg"@.len() as int)); lemma_dec(i, n - 1); } }
        assert(!args_map(a, n - 1).dom().contains(k));
    }
}
//@item crox/src/main.rs :: fn get_args
//@rw $x:recv . iter ( ) . enumerate ( ) . map ( | ( $i:id , $a:id ) | $$e ) . collect ( ) ==> { let mut vx_m = StrMap :: < String > :: default ( ) ; let mut vx_i : usize = 0 ; while vx_i < $x . len ( ) invariant 0 <= vx_i <= $x @ . len ( ) , vx_t == full_event @ . args , texts ( vx_m @ ) == args_map ( vx_t , vx_i as int ) , decreases $x @ . len ( ) - vx_i { let ghost vx_m0 = vx_m @ ; let $i = vx_i ; let $a = & $x [ vx_i ] ; let ( vx_k , vx_v ) = $e ; let ghost vx_kk = vx_k @ ; vx_m . insert ( vx_k , vx_v ) ; proof { lemma_texts ( vx_m0 , vx_kk , vx_v ) ; } vx_i += 1 ; } vx_m }
//@ret r
//@spec
    ensures
        r is None == (full_event@.args.len() == 0), //# C26
        r matches Some(m) ==> texts(m@) == args_map(full_event@.args, full_event@.args.len() as int), //# C26
//@start
    let ghost vx_t = full_event@.args;
    proof { assert(texts(Map::<Seq<char>, String>::empty()) =~= Map::empty()); reveal_strlit("arg"); }
//@end
proof fn lemma_texts(m: Map<Seq<char>, String>, k: Seq<char>, v: String)
    ensures texts(m.insert(k, v)) == texts(m).insert(k, v@)
{ assert(texts(m.insert(k, v)) =~= texts(m).insert(k, v@)); }

// texts: find and split_at
pub open spec fn upto(s: Seq<char>, k: int) -> nat { encode_utf8(s.take(k)).len() }
pub open spec fn is_at(s: Seq<char>, p: Seq<char>, k: int) -> bool { 0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p }
pub open spec fn first_from(s: Seq<char>, p: Seq<char>, k: int) -> Option<int>
    decreases s.len() - k
{ if k >= s.len() { if is_at(s, p, k) { Some(k) } else { None } } else if is_at(s, p, k) { Some(k) } else { first_from(s, p, k + 1) } }
pub open spec fn first_at(s: Seq<char>, p: Seq<char>) -> Option<int> { first_from(s, p, 0) }
#[verifier::external_body]
pub fn vx_find(s: &str, p: &str) -> (r: Option<usize>)
    ensures
        r is Some == first_at(s@, p@) is Some,
        r matches Some(n) ==> n == upto(s@, first_at(s@, p@)->Some_0) && n + encode_utf8(p@).len() <= encode_utf8(s@).len() <= 0x7fff_ffff_ffff_ffff,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_split_at<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str))
    requires exists|k: int| 0 <= k <= s@.len() && #[trigger] upto(s@, k) == n,
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] upto(s@, k) == n ==> r.0@ == s@.take(k) && r.1@ == s@.skip(k),
{ unimplemented!() }
proof fn lemma_first(s: Seq<char>, p: Seq<char>, k: int)
    requires 0 <= k,
    ensures first_from(s, p, k) matches Some(j) ==> k <= j && is_at(s, p, j),
    decreases s.len() - k
{ if k < s.len() && !is_at(s, p, k) { lemma_first(s, p, k + 1); } }

/// the name given with --crate-name
pub open spec fn named_crate(cmd: Seq<char>) -> Option<Seq<char>> {
    match first_at(cmd, " --crate-name "@) {
        Some(k) => { let l = cmd.skip(k + 14); Some(l.take(match first_at(l, " "@) { Some(j) => j, None => l.len() as int })) },
        None => None,
    }
}
proof fn lemma_crate_name(cmd: Seq<char>)
    ensures
        " --crate-name "@.len() == 14, " "@.len() == 1, encode_utf8(" --crate-name "@).len() == 14,
        first_at(cmd, " --crate-name "@) matches Some(k) ==> 0 <= k && k + 14 <= cmd.len() && upto(cmd, k + 14) == upto(cmd, k) + 14,
        forall|l: Seq<char>| #[trigger] first_at(l, " "@) matches Some(j) ==> 0 <= j <= l.len(),
        forall|l: Seq<char>| upto(l, l.len() as int) == #[trigger] encode_utf8(l).len(),
        first_at(cmd, " --crate-name "@) matches Some(k) ==> (named_crate(cmd) == Some(cmd.skip(k + 14).take(match first_at(cmd.skip(k + 14), " "@) { Some(j) => j, None => cmd.skip(k + 14).len() as int }))),
        first_at(cmd, " --crate-name "@) is None ==> named_crate(cmd) is None,
{
    reveal_strlit(" --crate-name "); reveal_strlit(" ");
    let p = " --crate-name "@;
    assert(is_ascii_chars(p)); is_ascii_chars_encode_utf8(p);
    lemma_first(cmd, p, 0);
    if let Some(k) = first_at(cmd, p) {
        assert(cmd.take(k + 14) =~= cmd.take(k) + p);
        encode_utf8_concat(cmd.take(k), p);
    }
    assert forall|l: Seq<char>| (#[trigger] first_at(l, " "@)) is Some implies 0 <= first_at(l, " "@)->Some_0 <= l.len() by { lemma_first(l, " "@, 0); }
    assert forall|l: Seq<char>| upto(l, l.len() as int) == #[trigger] encode_utf8(l).len() by { assert(l.take(l.len() as int) =~= l); }
}
pub open spec fn mapped(m: Map<u32, u32>, t: u32) -> u32 { if m.dom().contains(t) { m[t] } else { t } }
pub open spec fn kept(o: Opt, e: FEv) -> bool { iv(e) && match o.minimum_duration { Some(d) => (en(e) - st(e)) / 1000 >= d, None => true } }
/// the trace event of an interval event
pub open spec fn complete(p: ProfilingData, m: Map<u32, u32>, e: FEv) -> Js {
    Js::Obj(Map::<Seq<char>, Js>::empty().insert("name"@, Js::Text(e.label)).insert("cat"@, Js::Text(e.kind)).insert("ph"@, Js::Text("X"@)).insert("ts"@, Js::Num(st(e) / 1000))
        .insert("dur"@, Js::Num((en(e) - st(e)) / 1000)).insert("pid"@, Js::Num(p.meta().process_id as int)).insert("tid"@, Js::Num(mapped(m, e.thread) as int)).insert("args"@, args_js(e.args)))
}
pub open spec fn completes(o: Opt, p: ProfilingData, m: Map<u32, u32>, n: int) -> Seq<Js>
    decreases n
{ if n <= 0 { Seq::empty() } else if kept(o, p.events()[n - 1]) { completes(o, p, m, n - 1).push(complete(p, m, p.events()[n - 1])) } else { completes(o, p, m, n - 1) } }
/// a metadata record of the process
pub open spec fn about(p: ProfilingData, name: Seq<char>, key: Seq<char>, v: Js) -> Js {
    Js::Obj(Map::<Seq<char>, Js>::empty().insert("name"@, Js::Text(name)).insert("ph"@, Js::Text("M"@)).insert("ts"@, Js::Num(0)).insert("tid"@, Js::Num(0)).insert("cat"@, Js::Text(""@))
        .insert("pid"@, Js::Num(p.meta().process_id as int)).insert("args"@, Js::Obj(Map::<Seq<char>, Js>::empty().insert(key, v))))
}
pub open spec fn sort_index(p: ProfilingData) -> Js { about(p, "process_sort_index"@, "sort_index"@, Js::Num(p.meta().start_time@ / 1000)) }
pub open spec fn of_profile(o: Opt, p: ProfilingData, m: Map<u32, u32>) -> Seq<Js> {
    (match named_crate(p.meta().cmd@) { Some(n) => completes(o, p, m, p.events().len() as int).push(about(p, "process_name"@, "name"@, Js::Text(n))), None => completes(o, p, m, p.events().len() as int) }).push(sort_index(p))
}
pub open spec fn of_profiles(o: Opt, ps: Seq<PathBuf>, ms: Seq<Map<u32, u32>>, n: int) -> Seq<Js>
    decreases n
{ if n <= 0 { Seq::empty() } else { of_profiles(o, ps, ms, n - 1) + of_profile(o, profile_at(ps[n - 1]), ms[n - 1]) } }
/// one renaming of threads per profile
pub open spec fn renamings(o: Opt, ps: Seq<PathBuf>, ms: Seq<Map<u32, u32>>, n: int) -> bool { ms.len() == n && forall|i: int| 0 <= i < n ==> wanted(o, profile_at(ps[i]), #[trigger] ms[i]) }
/// the file of a run: the records of all profiles, named ones first
pub open spec fn all_paths(o: Opt) -> Seq<PathBuf> { o.file_prefix@ + dir_profiles(o) }
pub open spec fn exported(o: Opt, w: Seq<Js>) -> bool {
    exists|ms: Seq<Map<u32, u32>>| #[trigger] renamings(o, all_paths(o), ms, all_paths(o).len() as int) && w == of_profiles(o, all_paths(o), ms, all_paths(o).len() as int)
}
/// recorded times: intervals do not end before they start, nothing before 1970
pub open spec fn recorded(p: ProfilingData) -> bool {
    &&& 0 <= p.meta().start_time@ <= u64::MAX
    &&& forall|i: int| 0 <= i < p.events().len() && iv(#[trigger] p.events()[i]) ==> 0 <= st(p.events()[i]) <= en(p.events()[i]) <= 2 * u64::MAX
    &&& spans(p.events()).dom().len() <= u32::MAX
}
proof fn lemma_profiles_same(o: Opt, ps: Seq<PathBuf>, ms: Seq<Map<u32, u32>>, m: Map<u32, u32>, n: int)
    requires 0 <= n <= ms.len(),
    ensures of_profiles(o, ps, ms.push(m), n) == of_profiles(o, ps, ms, n),
    decreases n
{ if n > 0 { lemma_profiles_same(o, ps, ms, m, n - 1); } }
proof fn lemma_profiles_none(o: Opt, ps: Seq<PathBuf>, ms: Seq<Map<u32, u32>>, q: Seq<Js>)
    requires q.len() == 0,
    ensures q == of_profiles(o, ps, ms, 0), //# C26
{ assert(q =~= Seq::empty()); }
proof fn lemma_profiles_step(o: Opt, ps: Seq<PathBuf>, ms: Seq<Map<u32, u32>>, m: Map<u32, u32>, n: int, q: Seq<Js>)
    requires 0 <= n == ms.len(), n < ps.len(), q == of_profiles(o, ps, ms, n), renamings(o, ps, ms, n), wanted(o, profile_at(ps[n]), m),
    ensures q + of_profile(o, profile_at(ps[n]), m) == of_profiles(o, ps, ms.push(m), n + 1), renamings(o, ps, ms.push(m), n + 1), //# C26
{ lemma_profiles_same(o, ps, ms, m, n); }
proof fn lemma_args_js(a: Seq<Seq<char>>, r: Option<StrMap<String>>)
    requires r is None == (a.len() == 0), r matches Some(m) ==> texts(m@) == args_map(a, a.len() as int),
    ensures r.ser() == args_js(a), r.can(),
{
    if let Some(m) = r {
        let x = m@.map_values(|v: String| v.ser());
        let y = args_map(a, a.len() as int).map_values(|t: Seq<char>| Js::Text(t));
        assert forall|k: Seq<char>| m@.dom().contains(k) implies #[trigger] x[k] == y[k] by { assert(texts(m@)[k] == m@[k]@); }
        assert(texts(m@).dom() =~= m@.dom());
        assert(x =~= y);
    }
}
//@item crox/src/main.rs :: fn main
//@name crox_main
//@attr #[verifier::rlimit(60)]
//@start
    hide(spans); hide(of_profiles); hide(first_from); hide(collapsed); hide(args_map); hide(named_crate); hide(dec); hide(args_js);
//@rw Event ==> VxEventOut
//@rw for $v:id in $x:recv . iter ( ) . filter ( | $e:id | $$c ) $inv $body ==> { let vx_all = $x . iter ( ) ; let mut vx_i : usize = 0 ; while vx_i < vx_all . len ( ) $inv { let $v = & vx_all [ vx_i ] ; let $e = & vx_all [ vx_i ] ; vx_i += 1 ; if $c { $body } } }
//@ret r
//@spec
    requires forall|p: PathBuf| recorded(#[trigger] profile_at(p)),
    ensures r is Ok ==> exported(command_line(), written()), //# C26
//@before for
    let ghost ps = all_paths(opt);
    let ghost mut ms: Seq<Map<u32, u32>> = Seq::empty();
    proof { lemma_profiles_none(opt, ps, ms, seq@); }
//@loop 0
    invariant
        forall|p: PathBuf| recorded(#[trigger] profile_at(p)), opt == command_line(),
        it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it.seq()[i]) == ps[i],
        renamings(opt, ps, ms, it.index@ as int), //# C26
        seq@ == of_profiles(opt, ps, ms, it.index@ as int), //# C26
//@loopbind 0 it
//@loopstart 0
    let ghost q0 = seq@;
    proof { assert(recorded(profile_at(ps[it.index@ as int]))); lemma_crate_name(profile_at(ps[it.index@ as int]).meta().cmd@); }
//@loopend 0
    proof {
        let m = thread_to_collapsed_thread@;
        let i = it.index@ as int;
        lemma_profiles_step(opt, ps, ms, m, i, q0);
        ms = ms.push(m);
        assert(data == profile_at(ps[i]));
        assert(seq@ =~= q0 + of_profile(opt, data, m)); //# C26
    }
//@loop 1
    invariant
        vx_all@.len() == data.events().len(), forall|i: int| 0 <= i < vx_all@.len() ==> is_light(data.events(), #[trigger] vx_all@[i], i),
        recorded(data), 0 <= vx_i <= vx_all@.len(), opt == command_line(),
        seq@ == q0 + completes(opt, data, thread_to_collapsed_thread@, vx_i as int), //# C26
    decreases vx_all@.len() - vx_i
//@beforeall seq . serialize_element ( & process_name ) ? ;
    proof {
        assert(process_name@ =~= sort_index(data) || (named_crate(data.meta().cmd@) matches Some(n) && process_name@ =~= about(data, "process_name"@, "name"@, Js::Text(n)))); //# C26
    }
//@before seq . serialize_element ( & crox_event ) ? ;
    proof {
        lemma_args_js(full_event@.args, crox_event.args);
        assert(crox_event.ser() =~= complete(data, thread_to_collapsed_thread@, data.events()[vx_i - 1])); //# C26
    }
//@end
} // verus!
