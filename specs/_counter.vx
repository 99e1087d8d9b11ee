// measureme::counters::Counter: the reading never runs backwards (assumption of the property) and fits an interval event.
//@grw self . instructions . read ( ) . wrapping_sub ( self . start ) ==> vx_hw_reading ( Tracked ( & mut * c ) )
//@grw counter . since_start ( ) ==> counter . since_start ( Tracked ( & mut * c ) )
//@grw self . counter . since_start ( ) ==> self . counter . since_start ( Tracked ( & mut * c ) )
//@grw self . profiler . counter . since_start ( ) ==> self . profiler . counter . since_start ( Tracked ( & mut * c ) )
//@grw $x:place . elapsed ( ) ==> $x . elapsed ( Tracked ( & mut * c ) )
verus! {
/// latest reading of the counter
pub tracked struct Clock { pub ghost now: int }
pub open spec fn ticks(a: Clock, b: Clock) -> bool { a.now <= b.now && b.now <= MAX_INTERVAL_VALUE }
#[verifier::external_body]
pub struct Instant { x: u8 }
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self, Tracked(c): Tracked<&mut Clock>) -> (r: Duration)
        ensures ticks(*old(c), *final(c)), r@ == final(c).now
    { unimplemented!() }
}
//@item measureme/src/counters.rs :: struct WallTime
//@end
impl WallTime {
//@item measureme/src/counters.rs :: impl WallTime :: const NAME
//@end
//@item measureme/src/counters.rs :: impl WallTime :: fn new
//@end
//@item measureme/src/counters.rs :: impl WallTime :: fn since_start
//@params Tracked(c): Tracked<&mut Clock>
//@ret r
//@spec
    ensures ticks(*old(c), *final(c)), r == final(c).now, //# C23
//@end
}
#[verifier::external_body] pub struct Instructions { x: u8 }
#[verifier::external_body] pub struct InstructionsMinusIrqs { x: u8 }
#[verifier::external_body] pub struct InstructionsMinusRaw0420 { x: u8 }
impl Instructions {
//@item measureme/src/counters.rs :: impl Instructions :: const NAME
//@end
    #[verifier::external_body]
    fn since_start(&self, Tracked(c): Tracked<&mut Clock>) -> (r: u64) ensures ticks(*old(c), *final(c)), r == final(c).now { unimplemented!() }
}
impl InstructionsMinusIrqs {
//@item measureme/src/counters.rs :: impl InstructionsMinusIrqs :: const NAME
//@end
    #[verifier::external_body]
    fn since_start(&self, Tracked(c): Tracked<&mut Clock>) -> (r: u64) ensures ticks(*old(c), *final(c)), r == final(c).now { unimplemented!() }
}
impl InstructionsMinusRaw0420 {
//@item measureme/src/counters.rs :: impl InstructionsMinusRaw0420 :: const NAME
//@end
    #[verifier::external_body]
    fn since_start(&self, Tracked(c): Tracked<&mut Clock>) -> (r: u64) ensures ticks(*old(c), *final(c)), r == final(c).now { unimplemented!() }
}
//@item measureme/src/counters.rs :: enum Counter
//@end
/// the counter as described in the metadata: JSON texts, see lemma in the validation engine
pub open spec fn counter_json(x: Counter) -> Seq<char> {
    "{ \"name\": \""@ + (match x {
        Counter::WallTime(_) => "wall-time"@, Counter::Instructions(_) => "instructions:u"@,
        Counter::InstructionsMinusIrqs(_) => "instructions-minus-irqs:u"@, Counter::InstructionsMinusRaw0420(_) => "instructions-minus-r0420:u"@,
    }) + "\", \"units\": "@ + (match x {
        Counter::WallTime(_) => "[[\"ns\", 1], [\"μs\", 1000], [\"ms\", 1000000], [\"s\", 1000000000]]"@,
        _ => "[[\"instructions\", 1]]"@,
    }) + " }"@
}
impl Counter {
//@item measureme/src/counters.rs :: impl Counter :: fn since_start
//@params Tracked(c): Tracked<&mut Clock>
//@ret r
//@spec
    ensures ticks(*old(c), *final(c)), r == final(c).now, //# C23
//@end
//@item measureme/src/counters.rs :: impl Counter :: fn describe_as_json
//@ret r
//@spec
    ensures r@ == counter_json(*self), //# C24
//@end
}
} // verus!
