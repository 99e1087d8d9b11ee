// decodeme's Event (Cow defined before)
verus! {
//@item decodeme/src/event.rs :: struct Event
//@end
impl<'a> Event<'a> {
//@item decodeme/src/event.rs :: impl Event :: fn contains
//@ret r
//@spec
    ensures r == pl_contains(self.payload, other.payload), //# C07
//@end
//@item decodeme/src/event.rs :: impl Event :: fn duration
//@ret r
//@spec
    ensures r == iv_duration(pl_interval(self.payload)), //# C07
//@end
//@item decodeme/src/event.rs :: impl Event :: fn integer
//@ret r
//@spec
    ensures r == (match self.payload { EventPayload::Timestamp(_) => None::<u64>, EventPayload::Integer(i) => Some(i) }), //# C07
//@end
}
} // verus!
