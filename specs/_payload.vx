// decodeme's event payloads (include _rawopaque.vx or _raw.vx before).
//@grw $x:place . map ( | $v:id | $$e ) ==> ( match $x { Some ( $v ) => Some ( $e ) , None => None } )
//@grw debug_assert ! ( $$c ) ==> assert ! ( $c )
//@grw matches ! ( self , & $$p ) ==> matches ! ( * self , $p )
verus! {
//@item decodeme/src/event_payload.rs :: enum Timestamp
//@derive Clone, Copy
//@end
//@item decodeme/src/event_payload.rs :: enum EventPayload
//@derive Clone, Copy
//@end

pub open spec fn ts_start(t: Timestamp) -> int { match t { Timestamp::Interval { start, end } => start@, Timestamp::Instant(t) => t@ } }
pub open spec fn ts_end(t: Timestamp) -> int { match t { Timestamp::Interval { start, end } => end@, Timestamp::Instant(t) => t@ } }
/// interval [a, b] of a payload, None if the payload is not an interval
pub open spec fn pl_interval(p: EventPayload) -> Option<(int, int)> {
    match p { EventPayload::Timestamp(Timestamp::Interval { start, end }) => Some((start@, end@)), _ => None }
}
/// first and last moment of a timed payload
pub open spec fn pl_span(p: EventPayload) -> Option<(int, int)> {
    match p { EventPayload::Timestamp(t) => Some((ts_start(t), ts_end(t))), _ => None }
}
/// what the payload of a stored event must be
pub open spec fn ts_decoded(e: RawEvent, t0: int) -> Timestamp {
    if e.p2() == 0xFFFF_FFFF_FFFF { Timestamp::Instant(time(t0 + e.p1() as int)) }
    else { Timestamp::Interval { start: time(t0 + e.p1() as int), end: time(t0 + e.p2() as int) } }
}
pub open spec fn pl_decoded(e: RawEvent, t0: int) -> EventPayload {
    if e.p2() == 0xFFFF_FFFF_FFFE { EventPayload::Integer(e.p1()) } else { EventPayload::Timestamp(ts_decoded(e, t0)) }
}
/// `p` is an interval and all of `q` (a timed payload) lies inside it
pub open spec fn pl_contains(p: EventPayload, q: EventPayload) -> bool {
    pl_interval(p) matches Some((a, b)) && pl_span(q) matches Some((c, d)) && a <= c && d <= b
        && (pl_interval(q) is Some || c == d)
}
pub open spec fn iv_duration(p: Option<(int, int)>) -> Option<Duration> {
    match p { Some((a, b)) => if a <= b { Some(dur((b - a) as nat)) } else { None }, None => None }
}

impl EventPayload {
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn from_raw_event
//@ret r
//@spec
    ensures r == pl_decoded(*raw_event, start_time@), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn contains
//@ret r
//@spec
    ensures r == pl_contains(*self, *other), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn duration
//@ret r
//@spec
    ensures r == iv_duration(pl_interval(*self)), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn is_interval
//@ret r
//@spec
    ensures r == (*self matches EventPayload::Timestamp(t) && t is Interval), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn is_instant
//@ret r
//@spec
    ensures r == (*self matches EventPayload::Timestamp(t) && t is Instant), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn is_integer
//@ret r
//@spec
    ensures r == (*self is Integer), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn timestamp
//@ret r
//@spec
    ensures r == (match *self { EventPayload::Timestamp(t) => Some(t), EventPayload::Integer(_) => None::<Timestamp> }), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl EventPayload :: fn integer
//@ret r
//@spec
    ensures r == (match *self { EventPayload::Timestamp(_) => None::<u64>, EventPayload::Integer(i) => Some(i) }), //# C07
//@end
}
impl Timestamp {
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn from_raw_event
//@ret r
//@spec
    requires raw_event.p2() != 0xFFFF_FFFF_FFFE,
    ensures r == ts_decoded(*raw_event, start_time@), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn contains
//@ret r
//@spec
    // moments of a half-open interval
    ensures r == (*self matches Timestamp::Interval { start, end } && start@ <= t@ < end@), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn is_instant
//@ret r
//@spec
    ensures r == (*self is Instant), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn start
//@ret r
//@spec
    ensures r@ == ts_start(*self), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn end
//@ret r
//@spec
    ensures r@ == ts_end(*self), //# C07
//@end
//@item decodeme/src/event_payload.rs :: impl Timestamp :: fn duration
//@ret r
//@spec
    ensures r == iv_duration(pl_interval(EventPayload::Timestamp(*self))), //# C07
//@end
}

//@item decodeme/src/lightweight_event.rs :: struct LightweightEvent
//@end
impl LightweightEvent {
//@item decodeme/src/lightweight_event.rs :: impl LightweightEvent :: fn contains
//@ret r
//@spec
    ensures r == pl_contains(self.payload, other.payload), //# C07
//@end
//@item decodeme/src/lightweight_event.rs :: impl LightweightEvent :: fn duration
//@ret r
//@spec
    ensures r == iv_duration(pl_interval(self.payload)), //# C07
//@end
//@item decodeme/src/lightweight_event.rs :: impl LightweightEvent :: fn start
//@ret r
//@spec
    ensures r is Some == pl_span(self.payload) is Some, //# C07
            r matches Some(t) ==> pl_span(self.payload) matches Some((a, b)) && t@ == a, //# C07
//@end
//@item decodeme/src/lightweight_event.rs :: impl LightweightEvent :: fn end
//@ret r
//@spec
    ensures r is Some == pl_span(self.payload) is Some, //# C07
            r matches Some(t) ==> pl_span(self.payload) matches Some((a, b)) && t@ == b, //# C07
//@end
//@item decodeme/src/lightweight_event.rs :: impl LightweightEvent :: fn timestamp
//@ret r
//@spec
    ensures r == (match self.payload { EventPayload::Timestamp(t) => Some(t), EventPayload::Integer(_) => None::<Timestamp> }), //# C07
//@end
}
} // verus!
