// Common prelude: trusted contracts of the language / standard library used by the extracted code.
// Everything marked external_body / axiom / assume_specification here is part of the trusted base (listed in evidence).
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
verus! {

/// An arbitrary boolean; used only by the vacuity probes.
#[verifier::external_body]
pub fn vx_nondet() -> (b: bool) { unimplemented!() }

/// A panic: the call does not return.
#[verifier::external_body]
pub fn vx_diverge() -> (b: bool) ensures false { panic!() }

#[verifier::external_body]
pub fn vx_never<T>() -> (r: T) ensures false { panic!() }

#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }

/// Rust guarantees that no slice is longer than isize::MAX bytes.
pub axiom fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= 0x7fff_ffff_ffff_ffff;

pub axiom fn axiom_vec_len(s: &Vec<u8>)
    ensures s@.len() <= 0x7fff_ffff_ffff_ffff;

global size_of usize == 8;

// ---- little endian -------------------------------------------------------------------------------------------
pub open spec fn le16(s: Seq<u8>) -> nat { (s[0] as nat) + 256 * (s[1] as nat) }
pub open spec fn le32(s: Seq<u8>) -> nat { le16(s.subrange(0, 2)) + 65536 * le16(s.subrange(2, 4)) }
pub open spec fn le64(s: Seq<u8>) -> nat { le32(s.subrange(0, 4)) + 4294967296 * le32(s.subrange(4, 8)) }

/// `u32::from_le_bytes(s.try_into().unwrap())`
#[verifier::external_body]
pub fn vx_u32_from_le(s: &[u8]) -> (r: u32)
    requires s@.len() == 4,
    ensures r as nat == le32(s@)
{ u32::from_le_bytes(s.try_into().unwrap()) }

#[verifier::external_body]
pub fn vx_u64_from_le(s: &[u8]) -> (r: u64)
    requires s@.len() == 8,
    ensures r as nat == le64(s@)
{ u64::from_le_bytes(s.try_into().unwrap()) }

#[verifier::external_body]
pub fn vx_u32_to_le(x: u32) -> (r: [u8; 4])
    ensures r@.len() == 4, le32(r@) == x as nat
{ x.to_le_bytes() }

#[verifier::external_body]
pub fn vx_u64_to_le(x: u64) -> (r: [u8; 8])
    ensures r@.len() == 8, le64(r@) == x as nat
{ x.to_le_bytes() }

} // verus!
//@grw u32 :: from_le_bytes ( $$x . try_into ( ) . unwrap ( ) ) ==> vx_u32_from_le ( & $x )
//@grw u64 :: from_le_bytes ( $$x . try_into ( ) . unwrap ( ) ) ==> vx_u64_from_le ( & $x )
//@grw format ! $x ==> vx_string ( )
//@grw assert_eq ! ( $$a , $$b , $$m ) ==> assert ! ( $a == $b )
//@grw assert_eq ! ( $$a , $$b ) ==> assert ! ( $a == $b )
//@grw debug_assert_eq ! ( $$a , $$b ) ==> assert ! ( $a == $b )
