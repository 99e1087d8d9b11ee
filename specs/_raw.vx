// RawEvent: accessors and the two conversions (proved in unit raw; the same contracts are Kani harnesses of crate kani/raw:
// limits, accessors, serialize_layout, deserialize_layout).
//@grw std :: mem :: size_of :: < RawEvent > ( ) ==> 32usize
//@grw mem :: size_of :: < RawEvent > ( ) ==> 32usize
//@grw size_of :: < RawEvent > ( ) ==> 32usize
verus! {
//@item measureme/src/raw_event.rs :: struct RawEvent
//@end
//@item measureme/src/raw_event.rs :: const INSTANT_MARKER
//@end
//@item measureme/src/raw_event.rs :: const INTEGER_MARKER
//@end
//@item measureme/src/raw_event.rs :: const MAX_INTERVAL_VALUE
//@end
//@item measureme/src/raw_event.rs :: const MAX_SINGLE_VALUE
//@end
impl RawEvent {
    /// the two 48-bit payload words
    pub open spec fn p1(&self) -> u64 { (self.payload1_lower + 4294967296 * (self.payloads_upper / 65536)) as u64 }
    pub open spec fn p2(&self) -> u64 { (self.payload2_lower + 4294967296 * (self.payloads_upper % 65536)) as u64 }
    pub proof fn axiom_48(&self) ensures self.p1() <= 0xFFFF_FFFF_FFFF, self.p2() <= 0xFFFF_FFFF_FFFF {}
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn start_value
//@ret r
//@spec
    ensures r == self.p1(), //# C05, C07
//@start
    broadcast use group_bits;
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn end_value
//@ret r
//@spec
    ensures r == self.p2(), //# C05, C07
//@start
    broadcast use group_bits;
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn value
//@ret r
//@spec
    ensures r == self.p1(), //# C05, C07
//@start
    broadcast use group_bits;
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn is_instant
//@ret r
//@spec
    ensures r == (self.p2() == 0xFFFF_FFFF_FFFF), //# C05, C07
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn is_integer
//@ret r
//@spec
    ensures r == (self.p2() == 0xFFFF_FFFF_FFFE), //# C05, C07
//@end
//@item measureme/src/raw_event.rs :: impl Default for RawEvent :: fn default
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn deserialize
//@rw unsafe { let $v:id = std :: slice :: from_raw_parts_mut ( $$p ) ; $w:id . copy_from_slice ( $b ) ; } ; raw_event ==> vx_cast_from ( $b )
//@ret r
//@spec
    requires bytes@.len() == 32,
    ensures r == raw_at(bytes@), //# C06
//@end
}
/// the record stored in 32 bytes
pub open spec fn raw_at(b: Seq<u8>) -> RawEvent {
    RawEvent {
        event_kind: StringId(le64(b.subrange(0, 8)) as u64),
        event_id: EventId(StringId(le64(b.subrange(8, 16)) as u64)),
        thread_id: le32(b.subrange(16, 20)) as u32,
        payload1_lower: le32(b.subrange(20, 24)) as u32,
        payload2_lower: le32(b.subrange(24, 28)) as u32,
        payloads_upper: le32(b.subrange(28, 32)) as u32,
    }
}
/// reading the bytes of a repr(C) struct of this size on a little-endian machine (Kani: raw::deserialize_layout)
#[verifier::external_body]
pub fn vx_cast_from(b: &[u8]) -> (r: RawEvent) requires b@.len() == 32, ensures r == raw_at(b@) { unimplemented!() }
} // verus!
