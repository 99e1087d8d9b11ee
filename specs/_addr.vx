verus! {
//@item measureme/src/serialization.rs :: struct Addr
//@derive Clone, Copy, PartialEq, Eq, Structural
//@end
} // verus!
