//@grw debug_assert ! ( $$c ) ==> assert ! ( $c )
verus! {
use std::sync::Arc;
// ---- the contract of a sink, as proved for the real SerializationSink in unit `sink` --------------------------------
pub tracked struct World {
    /// everything written to this sink so far
    pub ghost log: Seq<u8>,
    /// `log` just before this thread's latest write
    pub ghost at_lock: Seq<u8>,
    /// number of writes of this thread
    pub ghost sections: nat,
    /// nobody else writes to this sink
    pub ghost excl: bool,
    /// which sink
    pub ghost sink: int,
}
pub open spec fn prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn wrote_bytes(w0: World, w1: World, bytes: Seq<u8>) -> bool {
    &&& w1.log == w1.at_lock + bytes
    &&& prefix(w0.log, w1.at_lock)
    &&& w0.excl ==> w1.at_lock == w0.log
    &&& w1.excl == w0.excl && w1.sink == w0.sink && w1.sections == w0.sections + 1
}
#[verifier::external_body]
pub struct SerializationSink { x: u8 }
impl SerializationSink {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn write_atomic<W>(&self, num_bytes: usize, write: W, Tracked(w): Tracked<&mut World>, Ghost(vx_b): Ghost<Seq<u8>>) -> (r: Addr)
        where W: FnOnce(&mut [u8])
        requires
            self.id() == old(w).sink,
            vx_b.len() == num_bytes,
            forall|s: &mut [u8]| #![trigger call_requires(write, (s,))] s@.len() == num_bytes ==> call_requires(write, (s,)),
            forall|s: &mut [u8]| #![trigger call_ensures(write, (s,), ())] call_ensures(write, (s,), ()) ==> final(s)@ == vx_b,
        ensures wrote_bytes(*old(w), *final(w), vx_b), r.0 as nat == final(w).at_lock.len(), r.0 < 0x4000_0000_0000_0000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_bytes_atomic(&self, bytes: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Addr)
        requires self.id() == old(w).sink,
        ensures wrote_bytes(*old(w), *final(w), bytes@), r.0 as nat == final(w).at_lock.len(), r.0 < 0x4000_0000_0000_0000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_std_write<'a>(&'a self) -> (r: StdWriter<'a>) ensures r.id() == self.id() { unimplemented!() }
}
/// the std::io::Write view of a sink; `write_all` passes everything to one `write_bytes_atomic` (unit `sink`)
#[verifier::external_body]
pub struct StdWriter<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct WriteError { x: u8 }
impl<'a> StdWriter<'a> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn write_all(&mut self, bytes: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), WriteError>)
        requires old(self).id() == old(w).sink,
        ensures r is Ok ==> wrote_bytes(*old(w), *final(w), bytes@), final(self).id() == old(self).id(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_box_err(r: Result<(), WriteError>) -> (s: Result<(), VxError>) ensures s is Ok == r is Ok { unimplemented!() }

// ---- little endian, inverse ----------------------------------------------------------------------------------------
pub proof fn lemma_le16_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 2, b.len() == 2,
    ensures le16(a) == le16(b) ==> a == b, le16(a) < 65536,
{ if le16(a) == le16(b) { assert(a[0] == b[0] && a[1] == b[1]); assert(a =~= b); } }
pub proof fn lemma_le32_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 4, b.len() == 4,
    ensures le32(a) == le32(b) ==> a == b, le32(a) < 4294967296,
{
    let (a0, a1, b0, b1) = (a.subrange(0, 2), a.subrange(2, 4), b.subrange(0, 2), b.subrange(2, 4));
    lemma_le16_inj(a0, b0); lemma_le16_inj(a1, b1); lemma_le16_inj(b0, b0);
    if le32(a) == le32(b) {
        assert(le16(a0) == le16(b0) && le16(a1) == le16(b1));
        assert(a =~= a0 + a1 && b =~= b0 + b1);
    }
}
pub proof fn lemma_le64_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 8, b.len() == 8, le64(a) == le64(b),
    ensures a == b,
{
    let (a0, a1, b0, b1) = (a.subrange(0, 4), a.subrange(4, 8), b.subrange(0, 4), b.subrange(4, 8));
    lemma_le32_inj(a0, b0); lemma_le32_inj(a1, b1); lemma_le32_inj(b0, b0);
    assert(le32(a0) == le32(b0) && le32(a1) == le32(b1));
    assert(a =~= a0 + a1 && b =~= b0 + b1);
}
} // verus!
//@grw $x:place . write_all ( $$y ) . map_err ( Box :: new ) ==> vx_box_err ( $x . write_all ( $y , Tracked ( & mut * w ) ) )
//@grw $x:id . to_le_bytes ( ) ==> vx_u32_to_le ( $x )
