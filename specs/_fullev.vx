// Events with all they carry.
verus! {
#[verifier::ext_equal]
pub struct FEv { pub kind: Seq<char>, pub label: Seq<char>, pub args: Seq<Seq<char>>, pub payload: EventPayload, pub thread: u32 }
impl<'a> View for Event<'a> {
    type V = FEv;
    open spec fn view(&self) -> FEv {
        FEv { kind: self.event_kind@, label: self.label@, args: self.additional_data@.map_values(|a: Cow<'a, str>| a@), payload: self.payload, thread: self.thread_id }
    }
}
pub open spec fn timed(e: FEv) -> bool { e.payload is Timestamp }
pub open spec fn iv(e: FEv) -> bool { pl_interval(e.payload) is Some }
pub open spec fn st(e: FEv) -> int { pl_span(e.payload)->Some_0.0 }
pub open spec fn en(e: FEv) -> int { pl_span(e.payload)->Some_0.1 }
} // verus!
