// RawEvent's accessors, by the contract proved in unit raw (and by Kani on the compiled crate, harness raw::accessors).
verus! {
#[verifier::external_body]
pub struct RawEvent { x: u8 }
impl RawEvent {
    /// the two 48-bit payload words
    pub uninterp spec fn p1(&self) -> u64;
    pub uninterp spec fn p2(&self) -> u64;
    /* proved in unit raw */ pub axiom fn axiom_48(&self) ensures self.p1() <= 0xFFFF_FFFF_FFFF, self.p2() <= 0xFFFF_FFFF_FFFF;
    #[verifier::external_body] pub fn start_value(&self) -> (r: u64) ensures r == self.p1() { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: u64) ensures r == self.p1() { unimplemented!() }
    #[verifier::external_body] pub fn end_value(&self) -> (r: u64) ensures r == self.p2() { unimplemented!() }
    #[verifier::external_body] pub fn is_instant(&self) -> (r: bool) ensures r == (self.p2() == 0xFFFF_FFFF_FFFF) { unimplemented!() }
    #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == (self.p2() == 0xFFFF_FFFF_FFFE) { unimplemented!() }
}

} // verus!
