// Profiles as the command line tools see them: decoded events, lightweight events, metadata (contracts proved in unit decoder).
//@grw UNIX_EPOCH ==> vx_unix_epoch ( )
//@grw SystemTime :: vx_unix_epoch ( ) ==> vx_unix_epoch ( )
//@grw std :: time :: vx_unix_epoch ( ) ==> vx_unix_epoch ( )
verus! {
//@item decodeme/src/lib.rs :: struct Metadata
//@end
/// the lightweight event of event i
pub open spec fn is_light(s: Seq<FEv>, e: LightweightEvent, i: int) -> bool {
    0 <= i < s.len() && e.event_index == i && e.payload == s[i].payload && e.thread_id == s[i].thread
}
#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
pub struct ProfilingData { x: u8 }
/// the profile stored under a path
pub uninterp spec fn profile_at(p: PathBuf) -> ProfilingData;
impl ProfilingData {
    pub uninterp spec fn events(&self) -> Seq<FEv>;
    pub uninterp spec fn meta(&self) -> Metadata;
    /// reading the file
    #[verifier::external_body]
    pub fn new(p: &PathBuf) -> (r: Result<ProfilingData, VxError>)
        ensures r matches Ok(d) ==> d == profile_at(*p)
    { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn metadata(&self) -> (r: &Metadata) ensures *r == self.meta() { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn num_events(&self) -> (r: usize) ensures r == self.events().len() { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn iter(&self) -> (r: Vec<LightweightEvent>)
        ensures r@.len() == self.events().len(), forall|i: int| 0 <= i < r@.len() ==> is_light(self.events(), #[trigger] r@[i], i)
    { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit decoder */
    pub fn to_full_event<'a>(&'a self, e: &LightweightEvent) -> (r: Event<'a>)
        requires e.event_index < self.events().len(),
        ensures r@ == self.events()[e.event_index as int]
    { unimplemented!() }
}
} // verus!
