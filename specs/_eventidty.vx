verus! {
//@item measureme/src/event_id.rs :: struct EventId
//@derive Clone, Copy, PartialEq, Eq, Structural
//@end
impl EventId {
//@item measureme/src/event_id.rs :: impl EventId :: const INVALID
//@end
//@item measureme/src/event_id.rs :: impl EventId :: fn to_string_id
//@ret r
//@spec
    ensures r == self.0, //# C10
//@end
}
} // verus!
