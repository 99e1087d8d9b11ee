// analyzeme's ProfilingData as the sequence of its events, seen through lightweight events (contracts proved in unit decoder)
//@grw $x:recv . iter ( ) . rev ( ) ==> vx_rev ( $x . iter ( ) )
//@grw $x:recv . last ( ) . cloned ( ) ==> vx_last_cloned ( & $x )
verus! {
/// the lightweight event of event i
pub open spec fn is_light(s: Seq<EventV>, e: LightweightEvent, i: int) -> bool {
    0 <= i < s.len() && e.event_index == i && e.payload == s[i].payload && e.thread_id == s[i].thread
}
#[verifier::external_body]
pub struct ProfilingData { x: u8 }
impl ProfilingData {
    pub uninterp spec fn events(&self) -> Seq<EventV>;
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn iter(&self) -> (r: Vec<LightweightEvent>)
        ensures r@.len() == self.events().len(), forall|i: int| 0 <= i < r@.len() ==> is_light(self.events(), #[trigger] r@[i], i)
    { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn to_full_event<'a>(&'a self, e: &LightweightEvent) -> (r: Event<'a>)
        requires e.event_index < self.events().len(),
        ensures ev(r) == self.events()[e.event_index as int]
    { unimplemented!() }
}
/// Iterator::rev
#[verifier::external_body]
pub fn vx_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
impl Clone for LightweightEvent {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: LightweightEvent) ensures r == *self { unimplemented!() }
}
pub fn vx_last_cloned(v: &Vec<LightweightEvent>) -> (r: Option<LightweightEvent>)
    ensures r is Some == (v@.len() > 0), r matches Some(e) ==> e == v@.last()
{ match v.last() { Some(e) => Some(e.clone()), None => None } }
} // verus!
