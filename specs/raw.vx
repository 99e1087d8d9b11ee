// C05, C06: RawEvent's functions against their contracts (the same contracts are decided by Kani on the compiled crate)
//@include _base.vx
//@include _bits.vx
//@include _fxmap.vx
//@include _addr.vx
//@include _strid.vx
//@include _eventidty.vx contracts eventid
//@include _raw.vx
//@include _rawnew.vx
fn main() {}
verus! {
/// limits and rejection: what does not fit never becomes an event
pub proof fn lemma_limits() ensures MAX_SINGLE_VALUE == 0xFFFF_FFFF_FFFF, MAX_INTERVAL_VALUE == 0xFFFF_FFFF_FFFD {} //# C05
impl RawEvent {
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_interval
//@name new_interval_or_panic
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@ret r
//@spec
    ensures start <= end, end <= 0xFFFF_FFFF_FFFD, !(r.p2() == 0xFFFF_FFFF_FFFF), !(r.p2() == 0xFFFF_FFFF_FFFE), //# C05
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_instant
//@name new_instant_or_panic
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@ret r
//@spec
    ensures instant <= 0xFFFF_FFFF_FFFF, //# C05
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_integer
//@name new_integer_or_panic
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@ret r
//@spec
    ensures value <= 0xFFFF_FFFF_FFFF, //# C05
//@end
}
} // verus!
