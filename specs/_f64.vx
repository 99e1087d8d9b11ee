// f64: opaque values, uninterpreted operations
verus! {
// ---- f64: opaque
#[verifier::external_body]
pub struct VxF64 { x: u8 }
impl Clone for VxF64 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for VxF64 {}
pub uninterp spec fn fcmp(a: VxF64, b: VxF64) -> Option<Ordering>;
pub uninterp spec fn feq(a: VxF64, b: VxF64) -> bool;
pub uninterp spec fn fdiv(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fmul(a: VxF64, b: VxF64) -> VxF64;
pub uninterp spec fn fadd(a: VxF64, b: VxF64) -> VxF64;
/// the nearest float
pub uninterp spec fn float(n: int) -> VxF64;
#[verifier::external_body]
pub fn vx_f64(n: u128) -> (r: VxF64) ensures r == float(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_hundred() -> (r: VxF64) ensures r == float(100) { unimplemented!() }
#[verifier::external_body]
pub fn vx_zero() -> (r: VxF64) ensures r == float(0) { unimplemented!() }
/// IEEE 754: the sum and the product do not depend on the order of two operands
#[verifier::external_body]
pub broadcast proof fn axiom_fadd(a: VxF64, b: VxF64) ensures #[trigger] fadd(a, b) == fadd(b, a) {}
#[verifier::external_body]
pub broadcast proof fn axiom_fmul(a: VxF64, b: VxF64) ensures #[trigger] fmul(a, b) == fmul(b, a) {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for VxF64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VxF64) -> bool { feq(*self, *o) } }
impl PartialEq for VxF64 { #[verifier::external_body] fn eq(&self, o: &VxF64) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for VxF64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &VxF64) -> Option<Ordering> { fcmp(*self, *o) } }
impl PartialOrd for VxF64 { #[verifier::external_body] fn partial_cmp(&self, o: &VxF64) -> (r: Option<Ordering>) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<VxF64> for VxF64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, d: VxF64) -> bool { true } open spec fn div_spec(self, d: VxF64) -> VxF64 { fdiv(self, d) } }
impl core::ops::Div<VxF64> for VxF64 { type Output = VxF64; #[verifier::external_body] fn div(self, d: VxF64) -> (r: VxF64) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<VxF64> for VxF64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, d: VxF64) -> bool { true } open spec fn mul_spec(self, d: VxF64) -> VxF64 { fmul(self, d) } }
impl core::ops::Mul<VxF64> for VxF64 { type Output = VxF64; #[verifier::external_body] fn mul(self, d: VxF64) -> (r: VxF64) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<VxF64> for VxF64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, d: VxF64) -> bool { true } open spec fn add_spec(self, d: VxF64) -> VxF64 { fadd(self, d) } }
impl core::ops::Add<VxF64> for VxF64 { type Output = VxF64; #[verifier::external_body] fn add(self, d: VxF64) -> (r: VxF64) { unimplemented!() } }
} // verus!
