// C06: the big-endian code of RawEvent (compiled out here) keeps the same layout
//@target big
//@include _base.vx
//@include _bits.vx
//@include _fxmap.vx
//@include _addr.vx
//@include _strid.vx
//@include _eventidty.vx contracts eventid
verus! {
impl EventId {
//@item measureme/src/event_id.rs :: impl EventId :: fn as_u64
//@ret r
//@spec
    ensures r == self.0.0, //# C06
//@end
//@item measureme/src/event_id.rs :: impl EventId :: fn from_u64
//@ret r
//@spec
    ensures r.0.0 == raw_id, //# C06
//@end
}
} // verus!
//@include _raw.vx
//@include _rawnew.vx
fn main() {}
