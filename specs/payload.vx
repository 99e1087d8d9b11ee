// C07: decoding of event payloads
//@include _base.vx
//@include _time.vx
//@include _rawopaque.vx
//@include _payload.vx
fn main() {}
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cow<'a, T: ?Sized> { p: core::marker::PhantomData<&'a T> }

} // verus!
//@include _event.vx
