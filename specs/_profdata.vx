// analyzeme's ProfilingData as the sequence of its events (iter_full: proved in unit decoder for forward and backward iteration)
//@grw self . iter_full ( ) . rev ( ) ==> vx_rev ( self . iter_full ( ) )
//@grw $x:recv . iter_full ( ) . rev ( ) ==> vx_rev ( $x . iter_full ( ) )
//@grw $x:recv . last ( ) . cloned ( ) ==> vx_last_cloned ( & $x )
verus! {
#[verifier::external_body]
pub struct ProfilingData { x: u8 }
impl ProfilingData {
    pub uninterp spec fn events(&self) -> Seq<EventV>;
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn iter_full<'a>(&'a self) -> (r: Vec<Event<'a>>)
        ensures evs(r@) == self.events()
    { unimplemented!() }
}
/// Iterator::rev
#[verifier::external_body]
pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
impl<'a> Clone for Event<'a> {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Event<'a>) ensures ev(r) == ev(*self) { unimplemented!() }
}
pub fn vx_last_cloned<'a>(v: &Vec<Event<'a>>) -> (r: Option<Event<'a>>)
    ensures r is Some == (v@.len() > 0), r matches Some(e) ==> ev(e) == ev(v@.last())
{ match v.last() { Some(e) => Some(e.clone()), None => None } }
} // verus!
