// C19: summarize aggregate
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _rawopaque.vx
//@include _payload.vx contracts payload
//@include _event.vx contracts payload
//@include _fmt.vx
//@include _kinds.vx
use std::cmp::Ordering;
use vstd::std_specs::cmp::PartialOrdSpec;
//@include _f64.vx
fn main() {}
//@include _extrema.vx contracts extrema
//@grw $x:recv . as_nanos ( ) as f64 ==> vx_f64 ( $x . as_nanos ( ) )
//@grw $x:id as f64 ==> vx_f64 ( $x as u128 )
//@grw 100.0 ==> vx_hundred ( )
//@grw 2.0 ==> vx_two ( )
//@grw vx_print ( $$x ) ==> vx_out . vx_print ( $x )
//@grw std :: iter :: Peekable < Box < dyn Iterator < Item = Event < 'a >> + 'a >> ==> VxPeekable < 'a >
//@grw $e:id . this . into ( ) ==> EventDescription :: from ( $e . this )
//@grw $e:id . into ( ) ==> EventDescription :: from ( $e )
//@grw $x:recv . map_or ( $$d , | $e:id | $$b ) ==> ( match $x { Some ( $e ) => $b , None => $d } )
//@grw unreachable ! ( ) ==> vx_never ( )
//@grw Result < ( ) , Box < dyn Error + Send + Sync >> ==> Result < ( ) , VxError >
//@grw $x:place . cloned ( ) ==> ( match $x { Some ( vx_e ) => Some ( vx_e . clone ( ) ) , None => None } )
//@grw WithParent :: < EventDescription < '_ >> :: from ==> | vx_e : WithParent < Event < 'a > > | -> ( vx_o : WithParent < EventDescription < 'a > > ) ensures vx_o @ == described ( vx_e @ ) { WithParent :: < EventDescription < 'a > > :: from ( vx_e ) }
verus! {
//@item summarize/src/aggregate.rs :: struct EventDescription
//@end
//@item summarize/src/aggregate.rs :: struct WithParent
//@end
//@item summarize/src/aggregate.rs :: enum SamplePoint
//@end
//@item summarize/src/aggregate.rs :: struct SampleInterval
//@end
#[verifier::ext_equal]
pub struct DescV { pub kind: Seq<char>, pub label: Seq<char>, pub args: Seq<Seq<char>> }
impl<'a> View for EventDescription<'a> {
    type V = DescV;
    open spec fn view(&self) -> DescV { DescV { kind: self.event_kind@, label: self.label@, args: self.additional_data@.map_values(|a: Cow<'a, str>| a@) } }
}
impl<T: View> View for WithParent<T> {
    type V = WithParent<T::V>;
    open spec fn view(&self) -> Self::V { WithParent { this: self.this@, parent: match self.parent { Some(p) => Some(p@), None => None } } }
}
impl<E: View> View for SamplePoint<E> {
    type V = SamplePoint<E::V>;
    open spec fn view(&self) -> Self::V { match *self { SamplePoint::Start(e) => SamplePoint::Start(e@), SamplePoint::End(e) => SamplePoint::End(e@), SamplePoint::Instant(e) => SamplePoint::Instant(e@) } }
}
impl<E: View> View for SampleInterval<E> {
    type V = SampleInterval<E::V>;
    open spec fn view(&self) -> Self::V { SampleInterval { start: self.start@, end: self.end@ } }
}
} // verus!
//@include _points.vx
verus! {
// ---- gaps ------------------------------------------------------------------------------------------------------------------
pub type GapV = SampleInterval<WithParent<FEv>>;
pub type PointD = SamplePoint<WithParent<DescV>>;
pub type GapD = SampleInterval<WithParent<DescV>>;
pub open spec fn describe(e: FEv) -> DescV { DescV { kind: e.kind, label: e.label, args: e.args } }
pub open spec fn described(e: WithParent<FEv>) -> WithParent<DescV> {
    WithParent { this: describe(e.this), parent: match e.parent { Some(p) => Some(describe(p)), None => None } }
}
pub open spec fn pt_described(p: PointV) -> PointD {
    match p { SamplePoint::Start(e) => SamplePoint::Start(described(e)), SamplePoint::End(e) => SamplePoint::End(described(e)), SamplePoint::Instant(e) => SamplePoint::Instant(described(e)) }
}
pub open spec fn gap_described(g: GapV) -> GapD { SampleInterval { start: pt_described(g.start), end: pt_described(g.end) } }
/// the gaps between consecutive points, last first
pub open spec fn pairs<E>(p: Seq<SamplePoint<E>>) -> Seq<SampleInterval<E>> {
    Seq::new((if p.len() == 0 { 0 } else { p.len() - 1 }) as nat, |j: int| SampleInterval { start: p[j + 1], end: p[j] })
}
pub open spec fn gap_ok(g: GapV) -> bool { pt_ok(g.start) && pt_ok(g.end) && pt_time(g.start) <= pt_time(g.end) }
pub open spec fn gap_len(g: GapV) -> int { pt_time(g.end) - pt_time(g.start) }

impl<'a> Clone for Event<'a> {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Event<'a>) ensures r@ == self@ { unimplemented!() }
}
impl<T: Clone> Clone for WithParent<T> {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct ProfilingData { x: u8 }
impl ProfilingData {
    pub uninterp spec fn events(&self) -> Seq<FEv>;
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn iter_full<'a>(&'a self) -> (r: Vec<Event<'a>>)
        ensures full(r@) == self.events()
    { unimplemented!() }
}
pub open spec fn full(s: Seq<Event<'_>>) -> Seq<FEv> { s.map_values(|e: Event<'_>| e@) }
/// the events that have a time
pub open spec fn timed_only(s: Seq<FEv>) -> Seq<FEv>
    decreases s.len()
{ if s.len() == 0 { s } else if timed(s.last()) { timed_only(s.drop_last()).push(s.last()) } else { timed_only(s.drop_last()) } }

// ---- points ----------------------------------------------------------------------------------------------------------------
impl<'a> EventDescription<'a> {
//@item summarize/src/aggregate.rs :: impl From<Event<'a>> for EventDescription<'a> :: fn from
//@ret r
//@spec
    ensures r@ == describe(e@), //# C19
//@end
}
impl<'a> WithParent<EventDescription<'a>> {
//@item summarize/src/aggregate.rs :: impl From<WithParent<Event<'a>>> for WithParent<EventDescription<'a>> :: fn from
//@ret r
//@spec
    ensures r@ == described(e@), //# C19
//@end
}
impl<E> SamplePoint<E> {
//@item summarize/src/aggregate.rs :: impl SamplePoint<E> :: fn event
//@ret r
//@spec
    ensures *r == (match *self { SamplePoint::Start(e) => e, SamplePoint::End(e) => e, SamplePoint::Instant(e) => e }), //# C19
//@end
//@item summarize/src/aggregate.rs :: impl SamplePoint<E> :: fn map_event
//@ret r
//@spec
    requires forall|e: E| #[trigger] f.requires((e,)),
    ensures
        match (self, r) { //# C19
            (SamplePoint::Start(e), SamplePoint::Start(o)) => f.ensures((e,), o),
            (SamplePoint::End(e), SamplePoint::End(o)) => f.ensures((e,), o),
            (SamplePoint::Instant(e), SamplePoint::Instant(o)) => f.ensures((e,), o),
            _ => false,
        },
//@end
}
impl<'a> SamplePoint<WithParent<Event<'a>>> {
//@item summarize/src/aggregate.rs :: impl SamplePoint<WithParent<Event<'_>>> :: fn timestamp
//@rw panic ! $x ==> vx_never ( )
//@ret r
//@spec
    requires pt_ok(self@),
    ensures r@ == pt_time(self@), //# C19
//@end
}
impl<E> SampleInterval<E> {
//@item summarize/src/aggregate.rs :: impl SampleInterval<E> :: fn map_event
//@ret r
//@spec
    requires forall|e: E| #[trigger] f.requires((e,)),
    ensures
        match (self.start, r.start) { //# C19
            (SamplePoint::Start(e), SamplePoint::Start(o)) => f.ensures((e,), o),
            (SamplePoint::End(e), SamplePoint::End(o)) => f.ensures((e,), o),
            (SamplePoint::Instant(e), SamplePoint::Instant(o)) => f.ensures((e,), o),
            _ => false,
        },
        match (self.end, r.end) { //# C19
            (SamplePoint::Start(e), SamplePoint::Start(o)) => f.ensures((e,), o),
            (SamplePoint::End(e), SamplePoint::End(o)) => f.ensures((e,), o),
            (SamplePoint::Instant(e), SamplePoint::Instant(o)) => f.ensures((e,), o),
            _ => false,
        },
//@end
}
impl<'a> SampleInterval<WithParent<Event<'a>>> {
//@item summarize/src/aggregate.rs :: impl SampleInterval<WithParent<Event<'_>>> :: fn duration
//@ret r
//@spec
    requires gap_ok(self@),
    ensures r@ == gap_len(self@), //# C19
//@end
}
/// std::iter::Peekable over the timed events, last stored first
#[verifier::external_body]
pub struct VxPeekable<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> VxPeekable<'a> {
    /// what is left, in stored order
    pub uninterp spec fn left(&self) -> Seq<FEv>;
    #[verifier::external_body]
    pub fn vx_new(v: Vec<Event<'a>>) -> (r: Self) ensures r.left() == full(v@).reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&Event<'a>>)
        ensures final(self).left() == old(self).left(),
            match r { Some(e) => old(self).left().len() > 0 && e@ == old(self).left().last(), None => old(self).left().len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Event<'a>>)
        ensures
            match r { Some(e) => old(self).left().len() > 0 && e@ == old(self).left().last() && final(self).left() == old(self).left().drop_last(),
                None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    { unimplemented!() }
}
} // verus!
verus! {
//@item summarize/src/aggregate.rs :: struct SamplePoints
//@end
//@item summarize/src/aggregate.rs :: struct SampleIntervals
//@end
//@item summarize/src/aggregate.rs :: struct Variance
//@derive Copy, Clone
//@end
//@item summarize/src/aggregate.rs :: struct AggregatedSampleInterval
//@end
//@item summarize/src/aggregate.rs :: struct AggregatedSampleIntervals
//@end
/// summarize's trait with the contract every implementation must have: next_back takes the first of what is to come
pub trait BackwardsIterator {
    type Item: View;
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<<Self::Item as View>::V>;
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok(),
        ensures
            final(self).ok(), //# C19
            match r { //# C19
                Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            };
}
//@item summarize/src/aggregate.rs :: mod backwards_iter :: struct Rev
//@end
/// any BackwardsIterator, taken forwards
pub trait BackwardsIteratorExt: BackwardsIterator + Sized {
    fn rev(self) -> (r: Rev<Self>)
        requires self.ok(),
        ensures r.ok(), r.rest() == self.rest(); //# C19
}
impl<I: BackwardsIterator> BackwardsIteratorExt for I {
//@item summarize/src/aggregate.rs :: mod backwards_iter :: impl BackwardsIteratorExt for I :: fn rev
//@nopub
//@end
}
impl<I: BackwardsIterator> Rev<I> {
    pub closed spec fn ok(&self) -> bool { self.0.ok() }
    pub closed spec fn rest(&self) -> Seq<<I::Item as View>::V> { self.0.rest() }
//@item summarize/src/aggregate.rs :: mod backwards_iter :: impl Iterator for Rev<I> :: fn next
//@ret r
//@spec
    requires old(self).ok(),
    ensures
        final(self).ok(), //# C19
        match r { //# C19
            Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        },
//@end
}
/// derived Clone
#[verifier::external_body]
pub fn vx_clone<T: View>(t: &T) -> (r: T) ensures r@ == t@ { unimplemented!() }
/// Option::replace
#[verifier::external_body]
pub fn vx_replace<T>(o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }

proof fn lemma_timed_split(a: Seq<FEv>, k: Seq<FEv>)
    requires a.len() > 0,
    ensures timed_only(a) + k == timed_only(a.drop_last()) + (if timed(a.last()) { seq![a.last()] + k } else { k }),
{ if timed(a.last()) { assert(timed_only(a.drop_last()).push(a.last()) + k =~= timed_only(a.drop_last()) + (seq![a.last()] + k)); } }
pub proof fn lemma_timed_only(s: Seq<FEv>)
    ensures forall|i: int| 0 <= i < timed_only(s).len() ==> timed(#[trigger] timed_only(s)[i]), forall|i: int| 0 <= i < timed_only(s).len() ==> s.contains(#[trigger] timed_only(s)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_timed_only(d);
        assert forall|i: int| 0 <= i < timed_only(s).len() implies timed(#[trigger] timed_only(s)[i]) && s.contains(timed_only(s)[i]) by {
            if i < timed_only(d).len() { assert(timed_only(s)[i] == timed_only(d)[i]); assert(d.contains(timed_only(d)[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == timed_only(d)[i]; assert(s[j] == d[j]); }
            else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
impl<'a> SamplePoints<'a> {
//@item summarize/src/aggregate.rs :: impl SamplePoints<'a> :: fn new
//@generics
//@rwsig events : I ==> events : Vec < Event < 'a > >
//@rw ( Box :: new ( $x:recv . rev ( ) . filter ( | $e:id | $$p ) ) as Box < dyn Iterator < Item = Event < 'a >>> ) . peekable ( ) ==> VxPeekable :: vx_new ( { let mut vx_v : Vec < Event < 'a > > = Vec :: new ( ) ; let vx_all = vx_rev ( $x ) ; for vx_x in vx_it : vx_all invariant vx_it . seq ( ) == ev0 . reverse ( ) , timed_only ( full ( ev0 ) ) == timed_only ( full ( ev0 ) . take ( ev0 . len ( ) - vx_it . index @ ) ) + full ( vx_v @ ) . reverse ( ) , { let ghost vx_kept = vx_v @ ; let vx_keep = { let $e = & vx_x ; $p } ; if vx_keep { vx_v . push ( vx_x ) ; } proof { lemma_keep ( ev0 , vx_it . index @ , vx_kept , vx_x , vx_v @ ) ; } } proof { lemma_kept ( ev0 , vx_v @ ) ; } vx_v } )
//@ret r
//@start
    let ghost ev0 = events@;
    proof { lemma_keep0(ev0); }
//@spec
    ensures
        r.rev_events.left() == timed_only(full(events@)), //# C19
        full(r.stack@) == Seq::<FEv>::empty(),
        timed_only(full(events@)).len() > 0 ==> r.expected_thread_id == timed_only(full(events@)).last().thread, //# C19
//@end
}
proof fn lemma_keep0(v: Seq<Event<'_>>)
    ensures timed_only(full(v)) == timed_only(full(v).take(v.len() - 0)) + full(Seq::empty()).reverse(),
{ assert(full(v).take(v.len() as int) =~= full(v)); assert(timed_only(full(v)) =~= timed_only(full(v)) + full(Seq::empty()).reverse()); }
proof fn lemma_keep(v: Seq<Event<'_>>, i: int, k: Seq<Event<'_>>, x: Event<'_>, k2: Seq<Event<'_>>)
    requires 0 <= i < v.len(), x == v.reverse()[i], timed_only(full(v)) == timed_only(full(v).take(v.len() - i)) + full(k).reverse(), k2 == (if timed(x@) { k.push(x) } else { k }),
    ensures timed_only(full(v)) == timed_only(full(v).take(v.len() - (i + 1))) + full(k2).reverse(),
{
    let a = full(v).take(v.len() - i);
    assert(a.last() == x@);
    assert(a.drop_last() =~= full(v).take(v.len() - (i + 1)));
    lemma_timed_split(a, full(k).reverse());
    assert(full(k.push(x)).reverse() =~= seq![x@] + full(k).reverse());
}
proof fn lemma_kept(v: Seq<Event<'_>>, k: Seq<Event<'_>>)
    requires timed_only(full(v)) == timed_only(full(v).take(v.len() - v.len())) + full(k).reverse(),
    ensures timed_only(full(v)) == full(k).reverse(),
{ assert(full(v).take(0) =~= Seq::empty()); assert(Seq::<FEv>::empty() + full(k).reverse() =~= full(k).reverse()); }
pub open spec fn opt_view(o: Option<&Event<'_>>) -> Option<FEv> { match o { Some(e) => Some((*e)@), None => None } }
impl<'a> BackwardsIterator for SamplePoints<'a> {
    type Item = SamplePoint<WithParent<Event<'a>>>;
    open spec fn ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.rev_events.left().len() ==> timed(#[trigger] self.rev_events.left()[i]) && self.rev_events.left()[i].thread == self.expected_thread_id
    }
    open spec fn rest(&self) -> Seq<PointV> { walk(self.rev_events.left(), full(self.stack@)) }
//@item summarize/src/aggregate.rs :: impl BackwardsIterator for SamplePoints<'a> :: fn next_back
//@nopub
//@ret r
//@rw sample_point . map_event ( | $t:id | $$b ) ==> sample_point . map_event ( | $t : Event < 'a > | -> ( vx_o : WithParent < Event < 'a > > ) ensures vx_o @ == ( WithParent { this : $t @ , parent : opt_view ( parent ) } ) { $b } )
//@start
    let ghost l0 = self.rev_events.left();
    let ghost g0 = full(self.stack@);
    proof { if g0.len() > 0 { assert(full(self.stack@.drop_last()) =~= g0.drop_last()); } }
//@tail vx_ret
    proof {
        let l1 = self.rev_events.left();
        let g1 = full(self.stack@);
        if vx_ret is Some {
            let x = vx_ret->Some_0@;
            assert(x is Start ==> l1 == l0 && g0.len() > 0 && g1 =~= g0.drop_last());
            assert(x is End ==> l1 == l0.drop_last() && g1 =~= g0.push(l0.last()));
            assert(x is Instant ==> l1 == l0.drop_last() && g1 =~= g0);
            assert(walk(l0, g0) =~= seq![x] + self.rest());
            assert(walk(l0, g0).drop_first() =~= self.rest());
        }
    }
//@end
}
} // verus!
verus! {
// ---- gaps between points ---------------------------------------------------------------------------------------------------
impl<I: BackwardsIterator> SampleIntervals<I> {
//@item summarize/src/aggregate.rs :: impl SampleIntervals<I> :: fn new
//@rwsig mut sample_points : I ==> sample_points : I
//@start
    let mut sample_points = sample_points;
//@ret r
//@spec
    requires sample_points.ok(),
    ensures
        r.sample_points.ok(), //# C19
        match r.last_sample_point { //# C19
            Some(x) => sample_points.rest().len() > 0 && x@ == sample_points.rest()[0] && r.sample_points.rest() == sample_points.rest().drop_first(),
            None => sample_points.rest().len() == 0 && r.sample_points.rest().len() == 0,
        },
//@end
}
/// (for the iterator that aggregate_profiles uses)
impl<'a> BackwardsIterator for SampleIntervals<SamplePoints<'a>> {
    type Item = SampleInterval<WithParent<Event<'a>>>;
    open spec fn ok(&self) -> bool { self.sample_points.ok() && (self.last_sample_point is None ==> self.sample_points.rest().len() == 0) }
    open spec fn rest(&self) -> Seq<GapV> {
        match self.last_sample_point { Some(x) => pairs(seq![x@] + self.sample_points.rest()), None => Seq::empty() }
    }
//@item summarize/src/aggregate.rs :: impl BackwardsIterator for SampleIntervals<I> :: fn next_back
//@nopub
//@rw $x:place . replace ( $$a ) ==> vx_replace ( & mut $x , $a )
//@rw $x:id . clone ( ) ==> vx_clone ( & $x )
//@ret r
//@start
    let ghost r0 = self.rest();
    let ghost p0 = self.sample_points.rest();
//@tail vx_ret
    proof { if vx_ret is Some { assert(self.rest() =~= r0.drop_first()); assert(seq![self.last_sample_point->Some_0@] + self.sample_points.rest() =~= p0); } }
//@end
}
impl<'a> SamplePoints<'a> {
//@item summarize/src/aggregate.rs :: impl SamplePoints<'a> :: fn intervals
//@ret r
//@spec
    requires self.ok(),
    ensures r.ok(), r.rest() == pairs(self.rest()), //# C19
//@tail vx_ret
    proof {
        if self.rest().len() > 0 { assert(seq![self.rest()[0]] + self.rest().drop_first() =~= self.rest()); }
        assert(vx_ret.rest() =~= pairs(self.rest()));
    }
//@end
}
} // verus!
verus! {
// ---- across profiles -------------------------------------------------------------------------------------------------------
#[verifier::ext_equal]
pub struct AggV { pub gap: GapD, pub min: int, pub range: int }
impl<'a> View for AggregatedSampleInterval<'a> {
    type V = AggV;
    open spec fn view(&self) -> AggV { AggV { gap: self.descriptions@, min: self.min_duration@ as int, range: self.duration_variance.range_size@ as int } }
}
pub open spec fn least(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { let r = least(s.drop_last()); if s.last() < r { s.last() } else { r } } }
pub open spec fn greatest(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { let r = greatest(s.drop_last()); if s.last() > r { s.last() } else { r } } }
pub proof fn lemma_least(s: Seq<int>)
    requires s.len() > 0,
    ensures s.contains(least(s)), forall|i: int| 0 <= i < s.len() ==> least(s) <= #[trigger] s[i], //# C19
        s.contains(greatest(s)), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= greatest(s), //# C19
    decreases s.len()
{
    if s.len() > 1 {
        let d = s.drop_last();
        lemma_least(d);
        let i = choose|i: int| 0 <= i < d.len() && d[i] == least(d);
        assert(s[i] == least(d));
        let j = choose|j: int| 0 <= j < d.len() && d[j] == greatest(d);
        assert(s[j] == greatest(d));
        assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < s.len() implies least(s) <= #[trigger] s[i] <= greatest(s) by { if i < d.len() { assert(s[i] == d[i]); } }
    } else { assert(s[0] == least(s)); }
}
proof fn lemma_extreme(d: Seq<Duration>, i: int)
    requires 0 < i < d.len(),
    ensures durs(d).take(i + 1).drop_last() == durs(d).take(i), durs(d).take(i + 1).last() == d[i]@, d.drop_first()[i - 1] == d[i],
{ assert(durs(d).take(i + 1).drop_last() =~= durs(d).take(i)); }
/// durations of the gap at position j, profile by profile
pub open spec fn lens(g: Seq<Seq<GapV>>, j: int) -> Seq<int> { g.map_values(|p: Seq<GapV>| gap_len(p[j])) }
/// C19: what aggregating must give
pub open spec fn aggregated(g: Seq<Seq<GapV>>) -> Seq<AggV> {
    if g.len() == 0 { Seq::empty() }
    else { Seq::new(g[0].len(), |j: int| AggV { gap: gap_described(g[0][j]), min: least(lens(g, j)), range: greatest(lens(g, j)) - least(lens(g, j)) }) }
}
/// profiles with the same sequence of events
pub open spec fn same_events(g: Seq<Seq<GapV>>) -> bool {
    &&& forall|p: int, j: int| 0 <= p < g.len() && 0 <= j < g[p].len() ==> gap_ok(#[trigger] g[p][j])
    &&& forall|p: int| 0 <= p < g.len() ==> (#[trigger] g[p]).len() == g[0].len()
    &&& forall|p: int, j: int| 0 <= p < g.len() && 0 <= j < g[0].len() ==> gap_described(#[trigger] g[p][j]) == gap_described(g[0][j])
}
pub type Gaps<'a> = SampleIntervals<SamplePoints<'a>>;
#[verifier::external_body]
pub fn vx_at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ unimplemented!() }
/// Vec::get_mut
#[verifier::external_body]
pub fn vx_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures
        match r { Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)), None => i >= old(v)@.len() && final(v)@ == old(v)@ },
{ unimplemented!() }
/// assert_eq! on descriptions (derived PartialEq)
pub fn vx_assert_same<T: View>(a: &T, b: &T) requires a@ == b@ { }
pub fn vx_assert_none<T>(a: &Option<T>) requires *a is None { }
/// Iterator::next on durations that have been computed
#[verifier::external_body]
pub fn vx_take_first(v: &mut Vec<Duration>) -> (r: Duration)
    requires old(v)@.len() > 0,
    ensures r == old(v)@[0], final(v)@ == old(v)@.drop_first()
{ unimplemented!() }
pub open spec fn rests<'a>(v: Seq<Gaps<'a>>) -> Seq<Seq<GapV>> { v.map_values(|i: Gaps<'a>| i.rest()) }
/// the iterators before p have given their next gap
pub open spec fn agg_inv<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>, p: int) -> bool {
    &&& v.len() == v0.len()
    &&& forall|q: int| 0 <= q < v0.len() ==> (#[trigger] v0[q]).ok()
    &&& forall|q: int| 0 <= q < p && q < v.len() ==> (#[trigger] v[q]).ok() && v[q].rest() == v0[q].rest().drop_first()
    &&& forall|q: int| p <= q < v.len() ==> #[trigger] v[q] == v0[q]
}
pub open spec fn ds_inv<'a>(v0: Seq<Gaps<'a>>, d: Seq<Duration>, p: int) -> bool { durs(d) == lens(rests(v0), 0).take(p) }
proof fn lemma_agg_next<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>, p: int)
    requires agg_inv(v0, v, p), 0 <= p < v0.len(), same_events(rests(v0)),
    ensures v[p].ok(), v[p].rest() == v0[p].rest(), v0[p].rest().len() == v0[0].rest().len(),
        v0[0].rest().len() > 0 ==> gap_ok(v0[p].rest()[0]) && gap_described(v0[p].rest()[0]) == gap_described(v0[0].rest()[0]),
{
    assert(v[p] == v0[p] && v0[p].ok());
    let g = rests(v0);
    assert(g[p] == v0[p].rest() && g[0] == v0[0].rest());
    assert(g[p].len() == g[0].len());
    if g[0].len() > 0 { assert(gap_ok(g[p][0])); assert(gap_described(g[p][0]) == gap_described(g[0][0])); }
}
proof fn lemma_agg_step<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>, w: Seq<Gaps<'a>>, p: int)
    requires agg_inv(v0, v, p), 0 <= p < v0.len(), w == v.update(p, w[p]), w[p].ok(), w[p].rest() == v0[p].rest().drop_first(),
    ensures agg_inv(v0, w, p + 1),
{
    assert forall|q: int| 0 <= q < p + 1 implies (#[trigger] w[q]).ok() && w[q].rest() == v0[q].rest().drop_first() by { if q < p { assert(w[q] == v[q]); } }
    assert forall|q: int| p + 1 <= q < w.len() implies #[trigger] w[q] == v0[q] by { assert(w[q] == v[q]); }
}
proof fn lemma_ds_step<'a>(v0: Seq<Gaps<'a>>, d: Seq<Duration>, x: Duration, p: int)
    requires 0 <= p < v0.len(), p == 0 ==> d.len() == 0, p > 0 ==> ds_inv(v0, d, p), x@ == gap_len(v0[p].rest()[0]),
    ensures ds_inv(v0, d.push(x), p + 1),
{
    if p == 0 { assert(durs(d) =~= lens(rests(v0), 0).take(0)); }
    assert(durs(d.push(x)) =~= durs(d).push(x@ as int));
    assert(lens(rests(v0), 0).take(p + 1) =~= lens(rests(v0), 0).take(p).push(gap_len(v0[p].rest()[0])));
}
/// all have given their next gap
proof fn lemma_agg_done<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>)
    requires same_events(rests(v0)), v0.len() > 0, agg_inv(v0, v, v0.len() as int), v0[0].rest().len() > 0,
    ensures
        forall|p: int| 0 <= p < v.len() ==> (#[trigger] v[p]).ok(), same_events(rests(v)),
        aggregated(rests(v)) == aggregated(rests(v0)).drop_first(),
        lens(rests(v0), 0).take(v0.len() as int) == lens(rests(v0), 0),
{
    let g = rests(v0);
    let h = rests(v);
    assert forall|p: int| 0 <= p < h.len() implies #[trigger] h[p] == g[p].drop_first() && h[p].len() == g[p].len() - 1 by { assert(v[p].rest() == v0[p].rest().drop_first()); assert(g[p].len() == g[0].len()); }
    assert(h[0] == g[0].drop_first());
    assert forall|p: int, j: int| 0 <= p < h.len() && 0 <= j < h[p].len() implies gap_ok(#[trigger] h[p][j]) by { assert(h[p][j] == g[p][j + 1]); }
    assert forall|p: int, j: int| 0 <= p < h.len() && 0 <= j < h[0].len() implies gap_described(#[trigger] h[p][j]) == gap_described(h[0][j]) by { assert(h[p][j] == g[p][j + 1]); assert(h[0][j] == g[0][j + 1]); }
    assert forall|j: int| 0 <= j < h[0].len() implies #[trigger] lens(h, j) == lens(g, j + 1) by { assert(lens(h, j) =~= lens(g, j + 1)) by { assert forall|p: int| 0 <= p < h.len() implies h[p][j] == #[trigger] g[p][j + 1] by { assert(h[p] == g[p].drop_first()); } } }
    assert(aggregated(h) =~= aggregated(g).drop_first());
    assert(lens(g, 0).take(v0.len() as int) =~= lens(g, 0));
}
proof fn lemma_ds_done<'a>(v0: Seq<Gaps<'a>>, d: Seq<Duration>)
    requires ds_inv(v0, d, v0.len() as int),
    ensures durs(d) == lens(rests(v0), 0), d.len() == v0.len(),
{ assert(lens(rests(v0), 0).take(v0.len() as int) =~= lens(rests(v0), 0)); assert(durs(d).len() == d.len()); }
proof fn lemma_none_left<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>)
    requires same_events(rests(v0)), v0.len() > 0, v0[0].rest().len() == 0, v.len() == v0.len(), v[0].ok(), v[0].rest().len() == 0,
        forall|q: int| 0 <= q < v0.len() ==> (#[trigger] v0[q]).ok(), forall|q: int| 0 < q < v.len() ==> #[trigger] v[q] == v0[q],
    ensures forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).ok() && v[q].rest().len() == 0,
{
    assert forall|q: int| 0 <= q < v.len() implies (#[trigger] v[q]).ok() && v[q].rest().len() == 0 by {
        if q > 0 { assert(v[q] == v0[q] && v0[q].ok()); assert(rests(v0)[q].len() == rests(v0)[0].len()); assert(rests(v0)[0] == v0[0].rest()); assert(rests(v0)[q] == v0[q].rest()); }
    }
}
/// the first profile has no gaps: nobody has
proof fn lemma_agg_none<'a>(v0: Seq<Gaps<'a>>, v: Seq<Gaps<'a>>)
    requires same_events(rests(v0)), v.len() == v0.len(), v0.len() > 0, v0[0].rest().len() == 0, forall|p: int| 0 <= p < v.len() ==> (#[trigger] v[p]).ok() && v[p].rest().len() == 0,
    ensures same_events(rests(v)), aggregated(rests(v)).len() == 0, aggregated(rests(v0)).len() == 0,
{
    assert(rests(v0)[0] == v0[0].rest());
    assert forall|p: int| 0 <= p < v.len() implies (#[trigger] rests(v)[p]).len() == 0 by { assert(v[p].rest().len() == 0); }
    assert(rests(v)[0].len() == 0);
}
pub open spec fn durs(v: Seq<Duration>) -> Seq<int> { v.map_values(|d: Duration| d@ as int) }

impl<'a> AggregatedSampleInterval<'a> {
//@item summarize/src/aggregate.rs :: impl AggregatedSampleInterval<'_> :: fn max_duration
//@ret r
//@spec
    ensures r@ == self@.min + self@.range, //# C19
//@end
}
/// (for the iterators that aggregate_profiles uses)
impl<'a> BackwardsIterator for AggregatedSampleIntervals<Gaps<'a>> {
    type Item = AggregatedSampleInterval<'a>;
    open spec fn ok(&self) -> bool {
        &&& forall|p: int| 0 <= p < self.sample_intervals_per_profile@.len() ==> (#[trigger] self.sample_intervals_per_profile@[p]).ok()
        &&& same_events(rests(self.sample_intervals_per_profile@))
    }
    open spec fn rest(&self) -> Seq<AggV> { aggregated(rests(self.sample_intervals_per_profile@)) }
//@item summarize/src/aggregate.rs :: impl BackwardsIterator for AggregatedSampleIntervals<I> :: fn next_back
//@nopub
//@rw $x:place . get_mut ( $$i ) ==> vx_get_mut ( & mut $x , $i )
//@rw assert_eq ! ( descriptions , $$b , $$m , ) ==> vx_assert_same ( & descriptions , & $b )
//@rw assert_eq ! ( $$a , None , $$m , ) ==> vx_assert_none ( & $a )
//@rw assert_eq ! ( descriptions , $$b , $$m ) ==> vx_assert_same ( & descriptions , & $b )
//@rw assert_eq ! ( $$a , None , $$m ) ==> vx_assert_none ( & $a )
//@rw std :: iter :: once ( $$f ) . chain ( self . sample_intervals_per_profile [ 1 .. ] . iter_mut ( ) . map ( | $it:id | $body ) , ) ==> { let mut vx_ds : Vec < Duration > = Vec :: new ( ) ; vx_ds . push ( $f ) ; let mut vx_p : usize = 1 ; while vx_p < self . sample_intervals_per_profile . len ( ) invariant 1 <= vx_p <= v0 . len ( ) , agg_inv ( v0 , self . sample_intervals_per_profile @ , vx_p as int ) , ds_inv ( v0 , vx_ds @ , vx_p as int ) , same_events ( rests ( v0 ) ) , v0 . len ( ) > 0 , v0 [ 0 ] . rest ( ) . len ( ) > 0 , descriptions @ == gap_described ( v0 [ 0 ] . rest ( ) [ 0 ] ) , decreases v0 . len ( ) - vx_p { proof { lemma_agg_next ( v0 , self . sample_intervals_per_profile @ , vx_p as int ) ; } let ghost vx_v1 = self . sample_intervals_per_profile @ ; let ghost vx_ds1 = vx_ds @ ; let $it = vx_at_mut ( & mut self . sample_intervals_per_profile , vx_p ) ; let vx_d = $body ; vx_ds . push ( vx_d ) ; proof { lemma_agg_step ( v0 , vx_v1 , self . sample_intervals_per_profile @ , vx_p as int ) ; lemma_ds_step ( v0 , vx_ds1 , vx_d , vx_p as int ) ; } vx_p += 1 ; } proof { lemma_agg_done ( v0 , self . sample_intervals_per_profile @ ) ; lemma_ds_done ( v0 , vx_ds @ ) ; } vx_ds }
//@rw durations_across_profiles . next ( ) . unwrap ( ) ==> vx_take_first ( & mut durations_across_profiles )
//@rw for $x:id in self . sample_intervals_per_profile . iter_mut ( ) $inv $body ==> { proof { lemma_none_left ( v0 , self . sample_intervals_per_profile @ ) ; } let mut vx_q : usize = 0 ; while vx_q < self . sample_intervals_per_profile . len ( ) $inv { let $x = vx_at_mut ( & mut self . sample_intervals_per_profile , vx_q ) ; vx_q += 1 ; $body } }
//@ret r
//@start
    let ghost v0 = self.sample_intervals_per_profile@;
    proof { if v0.len() > 0 { lemma_agg_next(v0, v0, 0); } }
//@after let first_duration = $$x ;
    let ghost vx_v1 = self.sample_intervals_per_profile@;
    proof { lemma_agg_step(v0, v0, vx_v1, 0); lemma_ds_step(v0, Seq::empty(), first_duration, 0); }
//@loop 0
    invariant
        it.seq() == vx_all.drop_first(), vx_all.len() > 0,
        min_duration@ == least(durs(vx_all).take(it.index@ + 1)), max_duration@ == greatest(durs(vx_all).take(it.index@ + 1)), //# C19
//@loopbind 0 it
//@loopstart 0
    proof { lemma_extreme(vx_all, it.index@ + 1); }
//@before let ( mut $$a , mut $$b ) = $$x ;
    let ghost vx_all = durations_across_profiles@;
//@loop 1
    invariant
        self.sample_intervals_per_profile@.len() == v0.len(),
        forall|q: int| 0 <= q < v0.len() ==> (#[trigger] self.sample_intervals_per_profile@[q]).ok(),
        forall|q: int| 0 <= q < v0.len() ==> (#[trigger] self.sample_intervals_per_profile@[q]).rest().len() == 0, //# C19
    decreases v0.len() - vx_q
//@before Some ( AggregatedSampleInterval $b )
    proof { assert(durs(vx_all).take(vx_all.len() as int) =~= durs(vx_all)); lemma_least(durs(vx_all)); }
//@tail vx_ret
    proof { if vx_ret is None && v0.len() > 0 { lemma_agg_none(v0, self.sample_intervals_per_profile@); } }
//@end
}
} // verus!
verus! {
impl<'a> AggregatedSampleIntervals<Gaps<'a>> {
//@item summarize/src/aggregate.rs :: impl AggregatedSampleIntervals<I> :: fn new
//@rwsig sample_intervals_per_profile : impl Iterator < Item = I > ==> sample_intervals_per_profile : Vec < Gaps < 'a > >
//@rw $x:id . collect ( ) ==> $x
//@ret r
//@spec
    ensures r.sample_intervals_per_profile@ == sample_intervals_per_profile@, //# C19
//@end
}
/// derived
impl<'a> Clone for SampleInterval<WithParent<EventDescription<'a>>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// derived
impl PartialEq for Variance<Duration> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Variance<Duration> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.range_size@ == o.range_size@ } }
impl Eq for Variance<Duration> {}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Variance<Duration> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(cmp_int(self.range_size@ as int, o.range_size@ as int)) }
}
impl PartialOrd for Variance<Duration> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<std::cmp::Ordering>) { unimplemented!() } }
impl Ord for Variance<Duration> { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: std::cmp::Ordering) { unimplemented!() } }
/// the order of durations is that of their nanoseconds
pub axiom fn axiom_keys()
    ensures
        forall|d: Duration| #[trigger] key(d) == d@,
        forall|d: Variance<Duration>| #[trigger] key(d) == d.range_size@;
proof fn lemma_ordered()
    ensures ordered::<Duration>(), ordered::<Variance<Duration>>(),
{
    axiom_keys();
    broadcast use vxt::axiom_dur_ext;
    assert forall|a: Duration, b: Duration| #[trigger] key(a) == #[trigger] key(b) implies a == b by { assert(dur(a@) == dur(b@)); }
    assert forall|a: Variance<Duration>, b: Variance<Duration>| #[trigger] key(a) == #[trigger] key(b) implies a == b by { assert(dur(a.range_size@) == dur(b.range_size@)); }
}

// ---- the report ------------------------------------------------------------------------------------------------------------
pub type Src<'a> = SampleInterval<WithParent<EventDescription<'a>>>;
/// what the asserts of the report rely on: how the points at the two ends of a gap are related
pub open spec fn related<E>(g: SampleInterval<WithParent<E>>) -> bool {
    match (g.start, g.end) {
        (SamplePoint::Start(a), SamplePoint::End(b)) => a == b,
        (SamplePoint::Start(o), SamplePoint::Start(i)) => i.parent == Some(o.this),
        (SamplePoint::Start(o), SamplePoint::Instant(i)) => i.parent == Some(o.this),
        (SamplePoint::End(i), SamplePoint::End(o)) => i.parent == Some(o.this),
        (SamplePoint::Instant(i), SamplePoint::End(o)) => i.parent == Some(o.this),
        (SamplePoint::End(a), SamplePoint::Start(b)) => a.parent == b.parent,
        (SamplePoint::End(a), SamplePoint::Instant(b)) => a.parent == b.parent,
        (SamplePoint::Instant(a), SamplePoint::Start(b)) => a.parent == b.parent,
        (SamplePoint::Instant(a), SamplePoint::Instant(b)) => a.parent == b.parent,
    }
}
/// the two ends of every gap are related as the report expects
proof fn lemma_related(s: Seq<FEv>)
    ensures forall|j: int| 0 <= j < pairs(points(s)).len() ==> related(#[trigger] pairs(points(s))[j]), //# C19
{
    lemma_adjacent(s, Seq::empty());
    let w = walk(s, Seq::empty());
    assert(points(s) == w);
    assert forall|j: int| 0 <= j < pairs(w).len() implies related(#[trigger] pairs(w)[j]) by { assert(adjacent(w[j + 1], w[j])); }
}
pub open spec fn joined(a: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else if n == 1 { a[0] } else { joined(a, n - 1) + ", "@ + a[n - 1] } }
/// kind (if it says something), label and arguments
pub open spec fn event_text(d: DescV) -> Seq<char> {
    (if code(d.kind) == QUERY_EVENT_KIND || code(d.kind) == GENERIC_ACTIVITY_EVENT_KIND { Seq::empty() } else { d.kind + " "@ }) + "`"@ + d.label + "("@ + joined(d.args, d.args.len() as int) + ")`"@
}
impl<'a> VxShow for Cow<'a, str> { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl<'a> VxShow for EventDescription<'a> { open spec fn shown(&self) -> Seq<char> { event_text(self@) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
pub open spec fn gap_text(g: GapD) -> Seq<char> {
    match (g.start, g.end) {
        (SamplePoint::Start(a), SamplePoint::End(_)) => event_text(a.this),
        (SamplePoint::Start(o), SamplePoint::Start(i)) => "in "@ + event_text(o.this) + ", before "@ + event_text(i.this),
        (SamplePoint::Start(o), SamplePoint::Instant(i)) => "in "@ + event_text(o.this) + ", before "@ + event_text(i.this),
        (SamplePoint::End(i), SamplePoint::End(o)) => "in "@ + event_text(o.this) + ", after "@ + event_text(i.this),
        (SamplePoint::Instant(i), SamplePoint::End(o)) => "in "@ + event_text(o.this) + ", after "@ + event_text(i.this),
        (SamplePoint::End(a), SamplePoint::Start(b)) => between(a, b),
        (SamplePoint::End(a), SamplePoint::Instant(b)) => between(a, b),
        (SamplePoint::Instant(a), SamplePoint::Start(b)) => between(a, b),
        (SamplePoint::Instant(a), SamplePoint::Instant(b)) => between(a, b),
    }
}
pub open spec fn between(a: WithParent<DescV>, b: WithParent<DescV>) -> Seq<char> {
    match a.parent {
        Some(p) => "in "@ + event_text(p) + ",\n    between "@ + event_text(a.this) + "\n        and "@ + event_text(b.this) + "\n"@,
        None => "between "@ + event_text(a.this) + " and "@ + event_text(b.this),
    }
}
pub uninterp spec fn fixed2(a: VxF64) -> Seq<char>;
/// `{:.2}`
#[verifier::external_body]
pub fn vx_show_d2(o: &mut String, t: &VxF64) ensures final(o)@ == old(o)@ + fixed2(*t) { unimplemented!() }
pub uninterp spec fn shown_f64(a: VxF64) -> Seq<char>;
impl VxShow for VxF64 { open spec fn shown(&self) -> Seq<char> { shown_f64(*self) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_two() -> (r: VxF64) ensures r == float(2) { unimplemented!() }
/// the one gap with that value, or how many there are
pub open spec fn source_text<'a>(e: ExtremaSources<Src<'a>>, n: int) -> Seq<char> {
    match e {
        ExtremaSources::One(s) => gap_text(s@),
        _ => dec(count_of(e) as int) + " occurrences, or "@ + fixed2(fmul(fdiv(float(count_of(e) as int), float(n)), float(100))) + "%"@,
    }
}
pub open spec fn source_related<'a>(e: ExtremaSources<Src<'a>>) -> bool { e matches ExtremaSources::One(s) ==> related(s@) }
pub open spec fn dur_line<'a>(e: (Duration, ExtremaSources<Src<'a>>), n: int) -> Seq<char> { "  "@ + dec(e.0@ as int) + " ns: "@ + source_text(e.1, n) + "\n"@ }
pub open spec fn var_line<'a>(e: (Variance<Duration>, ExtremaSources<Src<'a>>), n: int) -> Seq<char> { "  ±"@ + shown_f64(fdiv(float(e.0.range_size@ as int), float(2))) + " ns: "@ + source_text(e.1, n) + "\n"@ }
pub open spec fn dur_lines<'a>(s: Seq<(Duration, ExtremaSources<Src<'a>>)>, k: int, n: int) -> Seq<char>
    decreases k
{ if k <= 0 { Seq::empty() } else { dur_lines(s, k - 1, n) + dur_line(s[k - 1], n) } }
pub open spec fn var_lines<'a>(s: Seq<(Variance<Duration>, ExtremaSources<Src<'a>>)>, k: int, n: int) -> Seq<char>
    decreases k
{ if k <= 0 { Seq::empty() } else { var_lines(s, k - 1, n) + var_line(s[k - 1], n) } }
/// the entries of a map by increasing key
pub open spec fn in_order<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key((#[trigger] s[i]).0) < key((#[trigger] s[j]).0)
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub uninterp spec fn sorted<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
impl<K, V> BTreeMap<K, V> {
    /// into_iter: the entries by increasing key
    #[verifier::external_body]
    pub fn vx_into_vec(self) -> (r: Vec<(K, V)>) ensures r@ == sorted(self@), in_order(r@, self@) { unimplemented!() }
}
pub open spec fn all_related<'a, T>(s: Seq<(T, ExtremaSources<Src<'a>>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> source_related((#[trigger] s[i]).1) }
/// every source in the table is a gap of the history
proof fn lemma_sources<'a, T>(small: bool, m: Map<T, ExtremaSources<Src<'a>>>, h: Seq<(T, Src<'a>)>, s: Seq<(T, ExtremaSources<Src<'a>>)>)
    requires table(small, 10, m, h), in_order(s, m), forall|i: int| 0 <= i < h.len() ==> related((#[trigger] h[i]).1@),
    ensures all_related(s),
{
    assert forall|i: int| 0 <= i < s.len() implies source_related((#[trigger] s[i]).1) by {
        let v = s[i].0;
        assert(m.dom().contains(v));
        assert(source_ok(h, v, m[v]));
        if let ExtremaSources::One(x) = s[i].1 {
            assert(times(h, v) == 1);
            let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).0 == v && cloned(h[k].1, x);
            assert(related(h[k].1@));
        }
    }
}
/// panics unless the innermost interval is the given one
pub fn vx_assert_parent<'a>(p: &Option<EventDescription<'a>>, e: &EventDescription<'a>) requires p matches Some(x) && x@ == e@ { }
pub fn vx_assert_parents<'a>(p: &Option<EventDescription<'a>>, q: &Option<EventDescription<'a>>)
    requires match (*p, *q) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } { }
/// fmt::Formatter
#[verifier::external_body]
#[derive(Debug)]
pub struct VxError { x: u8 }
#[verifier::external_body]
pub struct VxFormatter { x: u8 }
impl View for VxFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxFormatter {
    #[verifier::external_body]
    pub fn vx_write_text(&mut self, s: &str) -> (r: Result<(), VxError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
/// standard output
#[verifier::external_body]
pub struct VxOut { x: u8 }
impl View for VxOut { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxOut {
    #[verifier::external_body]
    pub fn vx_print(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
impl<'a> EventDescription<'a> {
//@item summarize/src/aggregate.rs :: impl fmt::Display for EventDescription<'_> :: fn fmt
//@rwsig fmt :: Formatter < '_ > ==> VxFormatter
//@rwsig fmt :: Result ==> Result < ( ) , VxError >
//@rw for ( $i:id , $a:id ) in $x:recv . iter ( ) . enumerate ( ) $inv $body ==> { let mut vx_i : usize = 0 ; while vx_i < $x . len ( ) $inv { let $i = vx_i ; let $a = & $x [ vx_i ] ; vx_i += 1 ; $body } }
//@ret r
//@spec
    ensures r is Ok ==> final(f)@ == old(f)@ + event_text(self@), //# C19
//@start
    let ghost f0 = f@;
//@before for
    let ghost f1 = f@;
    proof { assert(f1 + Seq::<char>::empty() =~= f1); }
//@loop 0
    invariant
        0 <= vx_i <= self.additional_data@.len(),
        f@ == f1 + joined(self@.args, vx_i as int), //# C19
    decreases self.additional_data@.len() - vx_i
//@tail vx_ret
    proof { if vx_ret is Ok { assert(f@ =~= f0 + event_text(self@)); } } //# C19
//@end
}
/// what the loop over the gaps has added so far
pub type Agg<'a> = AggregatedSampleInterval<'a>;
pub open spec fn aggs<'a>(l: Seq<Agg<'a>>) -> Seq<AggV> { l.map_values(|x: Agg<'a>| x@) }
pub open spec fn min_rows<'a>(l: Seq<Agg<'a>>) -> Seq<(Duration, Src<'a>)> { l.map_values(|x: Agg<'a>| (dur(x@.min as nat), x.descriptions)) }
pub open spec fn max_rows<'a>(l: Seq<Agg<'a>>) -> Seq<(Duration, Src<'a>)> { l.map_values(|x: Agg<'a>| (dur((x@.min + x@.range) as nat), x.descriptions)) }
pub open spec fn var_rows<'a>(l: Seq<Agg<'a>>) -> Seq<(Variance<Duration>, Src<'a>)> { l.map_values(|x: Agg<'a>| (Variance { range_size: dur(x@.range as nat) }, x.descriptions)) }
pub struct Rep<'a> {
    pub log: Seq<Agg<'a>>,
    pub dsm: Map<Duration, ExtremaSources<Src<'a>>>, pub dlm: Map<Duration, ExtremaSources<Src<'a>>>,
    pub vsm: Map<Variance<Duration>, ExtremaSources<Src<'a>>>, pub vlm: Map<Variance<Duration>, ExtremaSources<Src<'a>>>,
}
/// the tables hold the extreme values (unit extrema) of the aggregated gaps, listed by increasing value
pub open spec fn rep_ok<'a>(a: Seq<AggV>, r: Rep<'a>) -> bool {
    &&& aggs(r.log) == a
    &&& table(true, 10, r.dsm, min_rows(r.log)) && table(false, 10, r.dlm, max_rows(r.log))
    &&& table(true, 10, r.vsm, var_rows(r.log)) && table(false, 10, r.vlm, var_rows(r.log))
    &&& in_order(sorted(r.dsm), r.dsm) && in_order(sorted(r.dlm), r.dlm) && in_order(sorted(r.vsm), r.vsm) && in_order(sorted(r.vlm), r.vlm)
}
pub open spec fn dur_table<'a>(head: Seq<char>, m: Map<Duration, ExtremaSources<Src<'a>>>, n: int) -> Seq<char> {
    head + dec(sorted(m).len() as int) + " durations:"@ + "\n"@ + dur_lines(sorted(m), sorted(m).len() as int, n)
}
pub open spec fn var_table<'a>(head: Seq<char>, m: Map<Variance<Duration>, ExtremaSources<Src<'a>>>, n: int) -> Seq<char> {
    head + dec(sorted(m).len() as int) + " variances:"@ + "\n"@ + var_lines(sorted(m), sorted(m).len() as int, n)
}
pub open spec fn rep_text<'a>(r: Rep<'a>, n: int) -> Seq<char> {
    dur_table("Smallest "@, r.dsm, n) + "\n"@ + dur_table("Largest "@, r.dlm, n) + "\n"@ + var_table("Smallest "@, r.vsm, n) + "\n"@ + var_table("Largest "@, r.vlm, n)
}
/// the gaps of each profile
pub open spec fn gaps(p: ProfilingData) -> Seq<GapV> { pairs(points(timed_only(p.events()))) }
pub open spec fn all_gaps(ps: Seq<ProfilingData>) -> Seq<Seq<GapV>> { ps.map_values(|p: ProfilingData| gaps(p)) }
/// properly nested traces of one thread with the same sequence of events
pub open spec fn comparable(ps: Seq<ProfilingData>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> nested(timed_only((#[trigger] ps[i]).events()))
    &&& forall|p: int| 0 <= p < ps.len() ==> (#[trigger] all_gaps(ps)[p]).len() == all_gaps(ps)[0].len()
    &&& forall|p: int, j: int| 0 <= p < ps.len() && 0 <= j < all_gaps(ps)[0].len() ==> gap_described(#[trigger] all_gaps(ps)[p][j]) == gap_described(all_gaps(ps)[0][j])
}
pub proof fn lemma_comparable(ps: Seq<ProfilingData>)
    requires comparable(ps),
    ensures same_events(all_gaps(ps)), //# C19
{
    let g = all_gaps(ps);
    assert forall|p: int, j: int| 0 <= p < g.len() && 0 <= j < g[p].len() implies gap_ok(#[trigger] g[p][j]) by {
        assert(nested(timed_only(ps[p].events())));
        lemma_times(timed_only(ps[p].events()));
        let w = points(timed_only(ps[p].events()));
        assert(g[p][j] == SampleInterval { start: w[j + 1], end: w[j] });
        assert(pt_ok(w[j]) && pt_ok(w[j + 1]) && pt_time(w[j]) >= pt_time(w[j + 1]));
    }
}
pub open spec fn started<'a>(ps: Seq<ProfilingData>, v: Seq<Gaps<'a>>) -> bool {
    v.len() <= ps.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ok() && v[i].rest() == gaps(ps[i])
}
proof fn lemma_ready(ps: Seq<ProfilingData>, i: int)
    requires comparable(ps), 0 <= i < ps.len(),
    ensures
        forall|j: int| 0 <= j < timed_only(ps[i].events()).len() ==> timed(#[trigger] timed_only(ps[i].events())[j]) && timed_only(ps[i].events())[j].thread == timed_only(ps[i].events()).last().thread,
{
    assert(nested(timed_only(ps[i].events())));
}
proof fn lemma_started<'a>(ps: Seq<ProfilingData>, v: Seq<Gaps<'a>>)
    requires comparable(ps), started(ps, v), v.len() == ps.len(),
    ensures rests(v) == all_gaps(ps), same_events(rests(v)), forall|p: int| 0 <= p < v.len() ==> (#[trigger] v[p]).ok(),
{ lemma_comparable(ps); assert forall|p: int| 0 <= p < v.len() implies rests(v)[p] == all_gaps(ps)[p] by { assert(v[p].rest() == gaps(ps[p])); } assert(rests(v) =~= all_gaps(ps)); }
proof fn lemma_rows0<'a>(a: Seq<AggV>, l: Seq<Agg<'a>>)
    requires l.len() == 0,
    ensures a.subrange(0, a.len() as int) == a, aggs(l) == a.take(0), min_rows(l) == Seq::<(Duration, Src<'a>)>::empty(), max_rows(l) == Seq::<(Duration, Src<'a>)>::empty(), var_rows(l) == Seq::<(Variance<Duration>, Src<'a>)>::empty(),
{ assert(a.subrange(0, a.len() as int) =~= a); assert(aggs(l) =~= a.take(0)); assert(min_rows(l) =~= Seq::empty()); assert(max_rows(l) =~= Seq::empty()); assert(var_rows(l) =~= Seq::empty()); }
proof fn lemma_row<'a>(a: Seq<AggV>, l: Seq<Agg<'a>>, x: Agg<'a>)
    requires l.len() <= a.len(), a.subrange(l.len() as int, a.len() as int).len() > 0, x@ == a.subrange(l.len() as int, a.len() as int)[0], aggs(l) == a.take(l.len() as int),
    ensures
        l.len() < a.len(), x@ == a[l.len() as int], a.subrange(l.len() as int, a.len() as int).drop_first() == a.subrange(l.len() as int + 1, a.len() as int),
        aggs(l.push(x)) == a.take(l.len() as int + 1),
        min_rows(l.push(x)) == min_rows(l).push((dur(x@.min as nat), x.descriptions)),
        max_rows(l.push(x)) == max_rows(l).push((dur((x@.min + x@.range) as nat), x.descriptions)),
        var_rows(l.push(x)) == var_rows(l).push((Variance { range_size: dur(x@.range as nat) }, x.descriptions)),
{
    assert(a.subrange(l.len() as int, a.len() as int).drop_first() =~= a.subrange(l.len() as int + 1, a.len() as int));
    assert(aggs(l.push(x)) =~= aggs(l).push(x@));
    assert(a.take(l.len() as int + 1) =~= a.take(l.len() as int).push(x@));
    assert(min_rows(l.push(x)) =~= min_rows(l).push((dur(x@.min as nat), x.descriptions)));
    assert(max_rows(l.push(x)) =~= max_rows(l).push((dur((x@.min + x@.range) as nat), x.descriptions)));
    assert(var_rows(l.push(x)) =~= var_rows(l).push((Variance { range_size: dur(x@.range as nat) }, x.descriptions)));
}
/// descriptions of aggregated gaps are related as the report expects
proof fn lemma_described(g: Seq<Seq<GapV>>, ps: Seq<ProfilingData>)
    requires g == all_gaps(ps),
    ensures forall|j: int| 0 <= j < aggregated(g).len() ==> related((#[trigger] aggregated(g)[j]).gap),
{
    if g.len() > 0 {
        lemma_related(timed_only(ps[0].events()));
        assert forall|j: int| 0 <= j < aggregated(g).len() implies related((#[trigger] aggregated(g)[j]).gap) by { assert(related(g[0][j])); }
    }
}
proof fn lemma_dur_start<'a>(s: Seq<(Duration, ExtremaSources<Src<'a>>)>, n: int)
    ensures forall|o: Seq<char>| #[trigger] (o + dur_lines(s, 0, n)) == o,
{ assert forall|o: Seq<char>| #[trigger] (o + dur_lines(s, 0, n)) == o by { assert(o + Seq::<char>::empty() =~= o); } }
proof fn lemma_var_start<'a>(s: Seq<(Variance<Duration>, ExtremaSources<Src<'a>>)>, n: int)
    ensures forall|o: Seq<char>| #[trigger] (o + var_lines(s, 0, n)) == o,
{ assert forall|o: Seq<char>| #[trigger] (o + var_lines(s, 0, n)) == o by { assert(o + Seq::<char>::empty() =~= o); } }
proof fn lemma_at<'a, T>(s: Seq<(T, ExtremaSources<Src<'a>>)>, e: (T, ExtremaSources<Src<'a>>), k: int)
    requires all_related(s), 0 <= k < s.len(), e == s[k],
    ensures source_related(e.1),
{ assert(source_related(s[k].1)); }
/// the sources in the four tables are gaps of the profiles
proof fn lemma_shown<'a>(r: Rep<'a>)
    requires
        table(true, 10, r.dsm, min_rows(r.log)), table(false, 10, r.dlm, max_rows(r.log)), table(true, 10, r.vsm, var_rows(r.log)), table(false, 10, r.vlm, var_rows(r.log)),
        forall|i: int| 0 <= i < r.log.len() ==> related((#[trigger] min_rows(r.log)[i]).1@),
        forall|i: int| 0 <= i < r.log.len() ==> related((#[trigger] max_rows(r.log)[i]).1@),
        forall|i: int| 0 <= i < r.log.len() ==> related((#[trigger] var_rows(r.log)[i]).1@),
    ensures
        in_order(sorted(r.dsm), r.dsm) ==> all_related(sorted(r.dsm)), in_order(sorted(r.dlm), r.dlm) ==> all_related(sorted(r.dlm)),
        in_order(sorted(r.vsm), r.vsm) ==> all_related(sorted(r.vsm)), in_order(sorted(r.vlm), r.vlm) ==> all_related(sorted(r.vlm)),
{
    if in_order(sorted(r.dsm), r.dsm) { lemma_sources(true, r.dsm, min_rows(r.log), sorted(r.dsm)); }
    if in_order(sorted(r.dlm), r.dlm) { lemma_sources(false, r.dlm, max_rows(r.log), sorted(r.dlm)); }
    if in_order(sorted(r.vsm), r.vsm) { lemma_sources(true, r.vsm, var_rows(r.log), sorted(r.vsm)); }
    if in_order(sorted(r.vlm), r.vlm) { lemma_sources(false, r.vlm, var_rows(r.log), sorted(r.vlm)); }
}
proof fn lemma_dur_line<'a>(s: Seq<(Duration, ExtremaSources<Src<'a>>)>, k: int, n: int, o: Seq<char>, o1: Seq<char>, o2: Seq<char>)
    requires 0 <= k < s.len(), o1 == o + dur_lines(s, k, n), o2 == o1 + (Seq::<char>::empty() + "  "@ + dec(s[k].0@ as int) + " ns: "@ + source_text(s[k].1, n) + "\n"@),
    ensures o2 == o + dur_lines(s, k + 1, n), //# C19
{ hide(source_text); assert(Seq::<char>::empty() + "  "@ =~= "  "@); assert(o2 =~= o + (dur_lines(s, k, n) + dur_line(s[k], n))); }
proof fn lemma_var_line<'a>(s: Seq<(Variance<Duration>, ExtremaSources<Src<'a>>)>, k: int, n: int, o: Seq<char>, o1: Seq<char>, o2: Seq<char>)
    requires 0 <= k < s.len(), o1 == o + var_lines(s, k, n), o2 == o1 + (Seq::<char>::empty() + "  ±"@ + shown_f64(fdiv(float(s[k].0.range_size@ as int), float(2))) + " ns: "@ + source_text(s[k].1, n) + "\n"@),
    ensures o2 == o + var_lines(s, k + 1, n), //# C19
{ hide(source_text); assert(Seq::<char>::empty() + "  ±"@ =~= "  ±"@); assert(o2 =~= o + (var_lines(s, k, n) + var_line(s[k], n))); }
proof fn lemma_dur_table<'a>(head: Seq<char>, m: Map<Duration, ExtremaSources<Src<'a>>>, n: int, o0: Seq<char>, o1: Seq<char>, o2: Seq<char>)
    requires
        in_order(sorted(m), m), o1 == o0 + (Seq::<char>::empty() + head + dec(m.dom().len() as int) + " durations:"@ + "\n"@),
        o2 == o1 + dur_lines(sorted(m), sorted(m).len() as int, n),
    ensures o2 == o0 + dur_table(head, m, n), //# C19
{ hide(dur_lines); assert(Seq::<char>::empty() + head =~= head); assert(o2 =~= o0 + dur_table(head, m, n)); }
proof fn lemma_var_table<'a>(head: Seq<char>, m: Map<Variance<Duration>, ExtremaSources<Src<'a>>>, n: int, o0: Seq<char>, o1: Seq<char>, o2: Seq<char>)
    requires
        in_order(sorted(m), m), o1 == o0 + (Seq::<char>::empty() + head + dec(m.dom().len() as int) + " variances:"@ + "\n"@),
        o2 == o1 + var_lines(sorted(m), sorted(m).len() as int, n),
    ensures o2 == o0 + var_table(head, m, n), //# C19
{ hide(var_lines); assert(Seq::<char>::empty() + head =~= head); assert(o2 =~= o0 + var_table(head, m, n)); }
proof fn lemma_rep_text<'a>(r: Rep<'a>, n: int, o0: Seq<char>, o1: Seq<char>, o2: Seq<char>, o3: Seq<char>, o4: Seq<char>)
    requires
        o1 == o0 + dur_table("Smallest "@, r.dsm, n), o2 == o1 + (Seq::<char>::empty() + "\n"@) + dur_table("Largest "@, r.dlm, n),
        o3 == o2 + (Seq::<char>::empty() + "\n"@) + var_table("Smallest "@, r.vsm, n), o4 == o3 + (Seq::<char>::empty() + "\n"@) + var_table("Largest "@, r.vlm, n),
    ensures o4 == o0 + rep_text(r, n), //# C19
{ hide(dur_table); hide(var_table); assert(Seq::<char>::empty() + "\n"@ =~= "\n"@); assert(o4 =~= o0 + rep_text(r, n)); }
proof fn lemma_rep_ok<'a>(a: Seq<AggV>, r: Rep<'a>)
    requires
        aggs(r.log) == a, table(true, 10, r.dsm, min_rows(r.log)), table(false, 10, r.dlm, max_rows(r.log)), table(true, 10, r.vsm, var_rows(r.log)), table(false, 10, r.vlm, var_rows(r.log)),
        in_order(sorted(r.dsm), r.dsm), in_order(sorted(r.dlm), r.dlm), in_order(sorted(r.vsm), r.vsm), in_order(sorted(r.vlm), r.vlm),
    ensures rep_ok(a, r),
{ }
proof fn lemma_take_all(a: Seq<AggV>)
    ensures a.take(a.len() as int) == a,
{ assert(a.take(a.len() as int) =~= a); }
proof fn lemma_logged<'a>(a: Seq<AggV>, l: Seq<Agg<'a>>)
    requires aggs(l) == a, forall|j: int| 0 <= j < a.len() ==> related((#[trigger] a[j]).gap),
    ensures
        forall|i: int| 0 <= i < l.len() ==> related((#[trigger] min_rows(l)[i]).1@),
        forall|i: int| 0 <= i < l.len() ==> related((#[trigger] max_rows(l)[i]).1@),
        forall|i: int| 0 <= i < l.len() ==> related((#[trigger] var_rows(l)[i]).1@),
{ assert forall|i: int| 0 <= i < l.len() implies related((#[trigger] l[i]).descriptions@) by { assert(aggs(l)[i] == a[i]); } }
//@item summarize/src/aggregate.rs :: fn aggregate_profiles :: closure describe
//@name vx_describe
//@generics <'a>
//@rwsig '_ ==> 'a
//@params intervals_count: i32
//@retty String
//@rw assert_eq ! ( $a:id . parent . as_ref ( ) , Some ( & $b:id . this ) ) ==> vx_assert_parent ( & $a . parent , & $b . this )
//@rw assert_eq ! ( $a:id . parent , $b:id . parent ) ==> vx_assert_parents ( & $a . parent , & $b . parent )
//@rw assert_eq ! ( $a:id , $b:id ) ==> vx_assert_same ( & $a , & $b )
//@rw $x:recv . to_string ( ) ==> { let mut vx_f = String :: new ( ) ; vx_show ( & mut vx_f , & $x ) ; vx_f }
//@ret r
//@start
    broadcast use {axiom_fadd, axiom_fmul};
    let ghost d0 = descriptions;
    let ghost n = intervals_count as int;
//@spec
    requires source_related(descriptions), intervals_count >= 0,
    ensures r@ == source_text(descriptions, intervals_count as int), //# C19
//@tail vx_ret
    proof { assert(vx_ret@ =~= source_text(d0, n)); } //# C19
//@end
//@item summarize/src/aggregate.rs :: fn aggregate_profiles
//@params vx_out: &mut VxOut
//@rw profiles . iter ( ) . map ( | $d:id | $$b ) , ==> { let mut vx_v : Vec < Gaps < '_ > > = Vec :: new ( ) ; let mut vx_i : usize = 0 ; while vx_i < profiles . len ( ) invariant 0 <= vx_i <= profiles . len ( ) , comparable ( profiles @ ) , vx_v @ . len ( ) == vx_i , started ( profiles @ , vx_v @ ) , decreases profiles . len ( ) - vx_i { let $d = & profiles [ vx_i ] ; proof { lemma_ready ( profiles @ , vx_i as int ) ; } vx_v . push ( $b ) ; vx_i += 1 ; } proof { lemma_started ( profiles @ , vx_v @ ) ; } vx_v }
//@rw for $x:id in $y:id . rev ( ) $inv $body ==> { let mut vx_it = $y . rev ( ) ; while let Some ( $x ) = vx_it . next ( ) $inv $body }
//@rw $x:id . add_range ( $$a ..= $$b , $$s , ) ==> $x . add_range ( vx_range ( $a , $b ) , $s , Ghost ( min_rows ( log ) ) , Ghost ( max_rows ( log ) ) )
//@rw $x:id . add_range ( vx_range ( $$a , $$b ) , $$s , ) ==> $x . add_range ( vx_range ( $a , $b ) , $s , Ghost ( min_rows ( log ) ) , Ghost ( max_rows ( log ) ) )
//@rw $x:id . add ( $$a , $$s ) ==> $x . add ( $a , $s , Ghost ( var_rows ( log ) ) , Ghost ( var_rows ( log ) ) )
//@rw let describe = | $$p | $body ; ==> let ghost dsm = durations . smallest @ ; let ghost dlm = durations . largest @ ; let ghost vsm = variances . smallest @ ; let ghost vlm = variances . largest @ ; let ghost mut vx_t : Seq < Seq < char > > = Seq :: empty ( ) ; let ghost rep = Rep { log , dsm , dlm , vsm , vlm } ; proof { lemma_take_all ( a0 ) ; lemma_described ( all_gaps ( profiles @ ) , profiles @ ) ; lemma_logged ( a0 , log ) ; lemma_shown ( rep ) ; lemma_dur_start ( sorted ( dsm ) , intervals_count as int ) ; lemma_dur_start ( sorted ( dlm ) , intervals_count as int ) ; lemma_var_start ( sorted ( vsm ) , intervals_count as int ) ; lemma_var_start ( sorted ( vlm ) , intervals_count as int ) ; }
//@rw describe ( $$d ) ==> vx_describe ( $d , intervals_count )
//@rw for ( $k:id , $d:id ) in $m:id . $f:id $inv $body ==> { let vx_es = $m . $f . vx_into_vec ( ) ; let ghost vx_o = vx_out @ ; for vx_e in vx_it : vx_es $inv { let ( $k , $d ) = vx_e ; $body } proof { vx_t = vx_t . push ( vx_o ) . push ( vx_out @ ) ; } }
//@spec
    requires comparable(profiles@), profiles@.len() > 0 ==> all_gaps(profiles@)[0].len() < i32::MAX,
    ensures exists|r: Rep<'_>| #[trigger] rep_ok(aggregated(all_gaps(profiles@)), r) && final(vx_out)@ == old(vx_out)@ + rep_text(r, aggregated(all_gaps(profiles@)).len() as int), //# C19
//@loop 0
    invariant
        vx_it.ok(), a0 == aggregated(all_gaps(profiles@)), a0.len() < i32::MAX, 0 <= intervals_count <= a0.len(), log.len() == intervals_count,
        ordered::<Duration>(), ordered::<Variance<Duration>>(), durations.limit == 10, variances.limit == 10,
        vx_it.rest() == a0.subrange(intervals_count as int, a0.len() as int), //# C19
        aggs(log) == a0.take(intervals_count as int),
        table(true, 10, durations.smallest@, min_rows(log)), table(false, 10, durations.largest@, max_rows(log)), //# C19
        table(true, 10, variances.smallest@, var_rows(log)), table(false, 10, variances.largest@, var_rows(log)), //# C19
    ensures intervals_count == a0.len(),
    decreases a0.len() - intervals_count
//@loopstart 0
    proof { lemma_row(a0, log, interval); }
//@loopend 0
    proof { log = log.push(interval); }
//@start
    hide(table); hide(in_order); hide(dur_line); hide(var_line); hide(dur_lines); hide(var_lines); hide(rep_text); hide(dur_table); hide(var_table); hide(related); hide(source_text); hide(source_related); hide(all_related); hide(rep_ok);
//@before let mut intervals_count = $$x ;
    let ghost a0 = aggregated(all_gaps(profiles@));
    let ghost mut log: Seq<Agg<'_>> = Seq::empty();
    proof { lemma_rows0(a0, log); lemma_ordered(); }
//@loop 1
    invariant
        vx_it.seq() == sorted(dsm), all_related(sorted(dsm)),
        intervals_count >= 0,
        vx_out@ == vx_o + dur_lines(sorted(dsm), vx_it.index@ as int, intervals_count as int), //# C19
//@loopend 1
    proof { lemma_dur_line(sorted(dsm), vx_it.index@ as int, intervals_count as int, vx_o, vx_o1, vx_out@); } //# C19
//@loopstart 1
    let ghost vx_o1 = vx_out@;
    proof { lemma_at(sorted(dsm), vx_e, vx_it.index@ as int); }
//@loop 2
    invariant
        vx_it.seq() == sorted(dlm), all_related(sorted(dlm)),
        intervals_count >= 0,
        vx_out@ == vx_o + dur_lines(sorted(dlm), vx_it.index@ as int, intervals_count as int), //# C19
//@loopend 2
    proof { lemma_dur_line(sorted(dlm), vx_it.index@ as int, intervals_count as int, vx_o, vx_o1, vx_out@); } //# C19
//@loopstart 2
    let ghost vx_o1 = vx_out@;
    proof { lemma_at(sorted(dlm), vx_e, vx_it.index@ as int); }
//@loop 3
    invariant
        vx_it.seq() == sorted(vsm), all_related(sorted(vsm)),
        intervals_count >= 0,
        vx_out@ == vx_o + var_lines(sorted(vsm), vx_it.index@ as int, intervals_count as int), //# C19
//@loopend 3
    proof { lemma_var_line(sorted(vsm), vx_it.index@ as int, intervals_count as int, vx_o, vx_o1, vx_out@); } //# C19
//@loopstart 3
    let ghost vx_o1 = vx_out@;
    proof { lemma_at(sorted(vsm), vx_e, vx_it.index@ as int); }
//@loop 4
    invariant
        vx_it.seq() == sorted(vlm), all_related(sorted(vlm)),
        intervals_count >= 0,
        vx_out@ == vx_o + var_lines(sorted(vlm), vx_it.index@ as int, intervals_count as int), //# C19
//@loopend 4
    proof { lemma_var_line(sorted(vlm), vx_it.index@ as int, intervals_count as int, vx_o, vx_o1, vx_out@); } //# C19
//@loopstart 4
    let ghost vx_o1 = vx_out@;
    proof { lemma_at(sorted(vlm), vx_e, vx_it.index@ as int); }
//@finish
    proof {
        let n = a0.len() as int;
        lemma_dur_table("Smallest "@, rep.dsm, n, old(vx_out)@, vx_t[0], vx_t[1]);
        lemma_dur_table("Largest "@, rep.dlm, n, vx_t[1] + (Seq::<char>::empty() + "\n"@), vx_t[2], vx_t[3]);
        lemma_var_table("Smallest "@, rep.vsm, n, vx_t[3] + (Seq::<char>::empty() + "\n"@), vx_t[4], vx_t[5]);
        lemma_var_table("Largest "@, rep.vlm, n, vx_t[5] + (Seq::<char>::empty() + "\n"@), vx_t[6], vx_t[7]);
        lemma_rep_text(rep, n, old(vx_out)@, vx_t[1], vx_t[3], vx_t[5], vx_t[7]);
        lemma_rep_ok(a0, rep);
    } //# C19
//@end
// ---- the command -------------------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct PathBuf { x: u8 }
/// the profile stored under a name (what opening one gives: C13, unit decoder)
pub uninterp spec fn profile_at(p: PathBuf) -> ProfilingData;
impl ProfilingData {
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn new(p: &PathBuf) -> (r: Result<ProfilingData, VxError>) ensures r matches Ok(x) ==> x == profile_at(*p) { unimplemented!() }
}
pub open spec fn profiles_at(f: Seq<PathBuf>) -> Seq<ProfilingData> { f.map_values(|p: PathBuf| profile_at(p)) }
proof fn lemma_opened0(f: Seq<PathBuf>, v: Seq<ProfilingData>)
    requires v.len() == 0,
    ensures v == profiles_at(f).take(0), profiles_at(f).take(f.len() as int) == profiles_at(f), profiles_at(f).len() == f.len(),
{ assert(v =~= profiles_at(f).take(0)); assert(profiles_at(f).take(f.len() as int) =~= profiles_at(f)); }
proof fn lemma_opened(f: Seq<PathBuf>, v: Seq<ProfilingData>, x: ProfilingData, i: int)
    requires 0 <= i < f.len(), v == profiles_at(f).take(i), x == profile_at(f[i]),
    ensures v.push(x) == profiles_at(f).take(i + 1),
{ assert(v.push(x) =~= profiles_at(f).take(i + 1)); }
//@item summarize/src/main.rs :: struct AggregateOpt
//@end
//@item summarize/src/main.rs :: fn aggregate
//@params vx_out: &mut VxOut
//@rw opt . files . into_iter ( ) . map ( | $f:id | $$b ) . collect :: < Result < Vec < _ > , _ >> ( ) ? ==> { let mut vx_v : Vec < ProfilingData > = Vec :: new ( ) ; proof { lemma_opened0 ( opt . files @ , vx_v @ ) ; } for $f in vx_it : opt . files invariant vx_it . seq ( ) == opt . files @ , vx_v @ == profiles_at ( opt . files @ ) . take ( vx_it . index @ as int ) , { let vx_p = $b ? ; let ghost vx_v0 = vx_v @ ; vx_v . push ( vx_p ) ; proof { lemma_opened ( opt . files @ , vx_v0 , vx_p , vx_it . index @ as int ) ; } } vx_v }
//@rw aggregate :: aggregate_profiles ( $$x ) ==> aggregate_profiles ( $x , vx_out )
//@ret r
//@spec
    requires comparable(profiles_at(opt.files@)), opt.files@.len() > 0 ==> all_gaps(profiles_at(opt.files@))[0].len() < i32::MAX,
    ensures
        r is Err ==> final(vx_out)@ == old(vx_out)@, //# C19
        r is Ok ==> exists|x: Rep<'_>| #[trigger] rep_ok(aggregated(all_gaps(profiles_at(opt.files@))), x) && final(vx_out)@ == old(vx_out)@ + rep_text(x, aggregated(all_gaps(profiles_at(opt.files@))).len() as int), //# C19
//@start
    hide(rep_ok); hide(rep_text); hide(comparable); hide(aggregated);
//@end
} // verus!
