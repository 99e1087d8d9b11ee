verus! {
/// what shifting, masking, or-ing and truncating do to the words of an event
pub broadcast proof fn bits_low(a: u32, x: u64)
    ensures
        #![trigger (a as u64) | x]
        x % 4294967296 == 0 ==> (a as u64) | x == a as u64 + x,
{
    if x % 4294967296 == 0 { assert((a as u64) | x == add(a as u64, x) && x <= 0xffff_ffff_0000_0000u64) by (bit_vector) requires x % 4294967296 == 0; }
}
pub broadcast proof fn bits_low_c(a: u32, x: u64)
    ensures
        #![trigger x | (a as u64)]
        x % 4294967296 == 0 ==> x | (a as u64) == a as u64 + x,
{
    if x % 4294967296 == 0 { assert(x | (a as u64) == add(a as u64, x) && x <= 0xffff_ffff_0000_0000u64) by (bit_vector) requires x % 4294967296 == 0; }
}
pub broadcast proof fn bits_upper(u: u32)
    ensures
        #![trigger u & 0xFFFF_0000]
        u & 0xFFFF_0000 == u - u % 65536,
        ((u & 0xFFFF_0000) as u64) << 16 == 4294967296 * (u / 65536) as u64,
{
    assert(u & 0xFFFF_0000 == sub(u, u % 65536) && u % 65536 <= u) by (bit_vector);
    assert(((u & 0xFFFF_0000) as u64) << 16 == mul(4294967296u64, (u / 65536) as u64)) by (bit_vector);
}
pub broadcast proof fn bits_lower(u: u32)
    ensures
        #![trigger u & 0x0000_FFFF]
        u & 0x0000_FFFF == u % 65536,
        ((u & 0x0000_FFFF) as u64) << 32 == 4294967296 * (u % 65536) as u64,
{
    assert(u & 0x0000_FFFF == u % 65536) by (bit_vector);
    assert(((u & 0x0000_FFFF) as u64) << 32 == mul(4294967296u64, (u % 65536) as u64)) by (bit_vector);
}
pub broadcast proof fn bits_cut(v: u64)
    ensures
        #![trigger v as u32]
        v as u32 == v % 4294967296,
{ assert(v as u32 as u64 == v % 4294967296) by (bit_vector); }
pub broadcast proof fn bits_high(v: u64)
    ensures
        #![trigger v >> 32]
        v >> 32 == v / 4294967296,
{ assert(v >> 32 == v / 4294967296) by (bit_vector); }
pub broadcast proof fn bits_mid(v: u64)
    ensures
        #![trigger v >> 16]
        v >> 16 == v / 65536,
        v <= 0xFFFF_FFFF_FFFF ==> (v >> 16) as u32 & 0xFFFF_0000 == (v / 4294967296) * 65536,
{
    assert(v >> 16 == v / 65536) by (bit_vector);
    if v <= 0xFFFF_FFFF_FFFF { assert(((v >> 16) as u32 & 0xFFFF_0000) as u64 == (v / 4294967296) * 65536) by (bit_vector) requires v <= 0xFFFF_FFFF_FFFF; }
}
pub broadcast proof fn bits_join(a: u32, b: u32)
    ensures
        #![trigger a | b]
        a % 65536 == 0 && b < 65536 ==> a | b == a + b,
        b % 65536 == 0 && a < 65536 ==> a | b == a + b,
{
    if a % 65536 == 0 && b < 65536 { assert(a | b == add(a, b) && a <= 0xFFFF_0000u32) by (bit_vector) requires a % 65536 == 0 && b < 65536; }
    if b % 65536 == 0 && a < 65536 { assert(a | b == add(a, b) && b <= 0xFFFF_0000u32) by (bit_vector) requires b % 65536 == 0 && a < 65536; }
}
pub broadcast group group_bits { bits_low, bits_low_c, bits_upper, bits_lower, bits_cut, bits_high, bits_mid, bits_join }
} // verus!
