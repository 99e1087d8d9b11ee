// RawEvent: constructors and serialize (include _raw.vx before)
verus! {
/// the bytes of a record
pub uninterp spec fn raw_bytes(e: RawEvent) -> Seq<u8>;
/// (Kani: raw::serialize_layout, raw::serialize_inverse)
pub axiom fn axiom_raw_bytes(e: RawEvent) ensures raw_bytes(e).len() == 32, raw_at(raw_bytes(e)) == e;
pub open spec fn raw_is(r: RawEvent, kind: StringId, id: EventId, tid: u32, p1: int, p2: int) -> bool {
    r.event_kind == kind && r.event_id == id && r.thread_id == tid && r.p1() == p1 && r.p2() == p2
}
/// the bytes of a repr(C) struct of this size on a little-endian machine
#[verifier::external_body]
pub fn vx_cast_to(e: &RawEvent) -> (r: &[u8]) ensures r@ == raw_bytes(*e), r@.len() == 32 { unimplemented!() }
/// the layout leaves no choice: the fields at 0, 8, 16, 20, 24 and 28 determine all 32 bytes
pub proof fn lemma_same_bytes(b: Seq<u8>, c: Seq<u8>)
    requires b.len() == 32, c.len() == 32, raw_at(b) == raw_at(c),
    ensures b == c,
{
    lemma_le(b.subrange(0, 8), c.subrange(0, 8)); lemma_le(b.subrange(8, 16), c.subrange(8, 16));
    lemma_le4(b.subrange(16, 20), c.subrange(16, 20)); lemma_le4(b.subrange(20, 24), c.subrange(20, 24));
    lemma_le4(b.subrange(24, 28), c.subrange(24, 28)); lemma_le4(b.subrange(28, 32), c.subrange(28, 32));
    assert forall|i: int| 0 <= i < 32 implies b[i] == c[i] by {
        if i < 8 { assert(b.subrange(0, 8)[i] == c.subrange(0, 8)[i]); }
        else if i < 16 { assert(b.subrange(8, 16)[i - 8] == c.subrange(8, 16)[i - 8]); }
        else if i < 20 { assert(b.subrange(16, 20)[i - 16] == c.subrange(16, 20)[i - 16]); }
        else if i < 24 { assert(b.subrange(20, 24)[i - 20] == c.subrange(20, 24)[i - 20]); }
        else if i < 28 { assert(b.subrange(24, 28)[i - 24] == c.subrange(24, 28)[i - 24]); }
        else { assert(b.subrange(28, 32)[i - 28] == c.subrange(28, 32)[i - 28]); }
    }
    assert(b =~= c);
}
pub proof fn lemma_le4(b: Seq<u8>, c: Seq<u8>)
    requires b.len() == 4, c.len() == 4, le32(b) as u32 == le32(c) as u32,
    ensures b == c,
{
    let (p, q, r, s) = (b.subrange(0, 2), b.subrange(2, 4), c.subrange(0, 2), c.subrange(2, 4));
    assert(p[0] == b[0] && p[1] == b[1] && q[0] == b[2] && q[1] == b[3] && r[0] == c[0] && r[1] == c[1] && s[0] == c[2] && s[1] == c[3]);
    assert(le32(b) == b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3]);
    assert(le32(c) == c[0] + 256 * c[1] + 65536 * c[2] + 16777216 * c[3]);
    assert(b =~= c);
}
pub proof fn lemma_le(b: Seq<u8>, c: Seq<u8>)
    requires b.len() == 8, c.len() == 8, le64(b) as u64 == le64(c) as u64,
    ensures b == c,
{
    hide(le32); hide(le16);
    let (p, q, r, s) = (b.subrange(0, 4), b.subrange(4, 8), c.subrange(0, 4), c.subrange(4, 8));
    lemma_le_bound(p); lemma_le_bound(q); lemma_le_bound(r); lemma_le_bound(s);
    lemma_halves(le32(p), le32(q), le32(r), le32(s));
    lemma_le4(p, r); lemma_le4(q, s);
    assert(b =~= p + q); assert(c =~= r + s);
}
pub proof fn lemma_halves(a: nat, b: nat, c: nat, d: nat)
    requires a < 4294967296, b < 4294967296, c < 4294967296, d < 4294967296, (a + 4294967296 * b) as u64 == (c + 4294967296 * d) as u64,
    ensures a == c, b == d,
{}
pub proof fn lemma_le_bound(b: Seq<u8>) requires b.len() == 4, ensures le32(b) < 4294967296 {
    let (p, q) = (b.subrange(0, 2), b.subrange(2, 4));
    assert(p[0] == b[0] && p[1] == b[1] && q[0] == b[2] && q[1] == b[3]);
    assert(le32(b) == b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3]);
}
impl RawEvent {
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn pack_values
//@ret r
//@spec
    requires value1 <= 0xFFFF_FFFF_FFFF, value2 <= 0xFFFF_FFFF_FFFF,
    ensures raw_is(r, event_kind, event_id, thread_id, value1 as int, value2 as int), //# C05
//@start
    broadcast use group_bits;
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_interval
//@ret r
//@spec
    requires start <= end, end <= MAX_INTERVAL_VALUE,
    ensures raw_is(r, event_kind, event_id, thread_id, start as int, end as int), //# C05
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_instant
//@ret r
//@spec
    requires instant <= MAX_SINGLE_VALUE,
    ensures raw_is(r, event_kind, event_id, thread_id, instant as int, 0xFFFF_FFFF_FFFF), //# C05
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn new_integer
//@ret r
//@spec
    requires value <= MAX_SINGLE_VALUE,
    ensures raw_is(r, event_kind, event_id, thread_id, value as int, 0xFFFF_FFFF_FFFE), //# C05
//@end
//@item measureme/src/raw_event.rs :: impl RawEvent :: fn serialize
//@rw unsafe { std :: slice :: from_raw_parts ( $$p ) } ==> vx_cast_to ( self )
//@rw $x:recv . as_u64 ( ) . to_le_bytes ( ) ==> vx_u64_to_le ( $x . as_u64 ( ) )
//@rw $x:recv . to_le_bytes ( ) ==> vx_u32_to_le ( $x )
//@spec
    requires old(bytes)@.len() == 32,
    ensures final(bytes)@ == raw_bytes(*self), raw_at(final(bytes)@) == *self, final(bytes)@.len() == 32, //# C06
//@tail
    proof {
        axiom_raw_bytes(*self);
        let b = bytes@;
        assert(raw_at(b).event_kind == self.event_kind && raw_at(b).event_id == self.event_id && raw_at(b).thread_id == self.thread_id
            && raw_at(b).payload1_lower == self.payload1_lower && raw_at(b).payload2_lower == self.payload2_lower && raw_at(b).payloads_upper == self.payloads_upper);
        lemma_same_bytes(b, raw_bytes(*self));
    } //# C06
//@end
}
} // verus!
