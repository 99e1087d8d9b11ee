// Text: str / String / Cow as character sequences with vstd's UTF-8 model; memchr.
use vstd::utf8::*;
use vstd::std_specs::convert::FromSpecImpl;
verus! {
pub trait ToOwned { type Owned; }
impl ToOwned for str { type Owned = String; }
impl ToOwned for [u8] { type Owned = Vec<u8>; }
/// std::borrow::Cow
pub enum Cow<'a, B: ?Sized + ToOwned> { Borrowed(&'a B), Owned(B::Owned) }
impl<'a> View for Cow<'a, str> { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> View for Cow<'a, [u8]> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> FromSpecImpl<&'a str> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: &'a str) -> Self { Cow::Borrowed(s) } }
impl<'a> From<&'a str> for Cow<'a, str> { fn from(s: &'a str) -> Self { Cow::Borrowed(s) } }
impl<'a> FromSpecImpl<String> for Cow<'a, str> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: String) -> Self { Cow::Owned(s) } }
impl<'a> From<String> for Cow<'a, str> { fn from(s: String) -> Self { Cow::Owned(s) } }
impl<'a> Cow<'a, [u8]> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    /// deref
    #[verifier::external_body]
    pub fn vx_deref(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
}
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn vx_deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }

#[verifier::external_body]
#[derive(Debug)]
pub struct Utf8Error { x: u8 }

/// std::str::from_utf8
#[verifier::external_body]
pub fn vx_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@
{ unimplemented!() }
/// String::from_utf8
#[verifier::external_body]
pub fn vx_string_from_utf8(b: Vec<u8>) -> (r: Result<String, Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@
{ unimplemented!() }
/// String::from_utf8_lossy
#[verifier::external_body]
pub fn vx_from_utf8_lossy<'a>(b: &'a [u8]) -> (r: Cow<'a, str>)
    ensures valid_utf8(b@) ==> encode_utf8(r@) == b@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_push_str(o: &mut String, s: &str)
    ensures final(o)@ == old(o)@ + s@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_into_bytes(s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@)
{ unimplemented!() }

/// position of the first byte with property f, or the length
pub open spec fn first_pos(b: Seq<u8>, f: spec_fn(u8) -> bool) -> int
    decreases b.len()
{
    if b.len() == 0 { 0 } else if f(b[0]) { 0 } else { 1 + first_pos(b.subrange(1, b.len() as int), f) }
}
pub proof fn lemma_first_pos(b: Seq<u8>, f: spec_fn(u8) -> bool)
    ensures 0 <= first_pos(b, f) <= b.len(), forall|i: int| 0 <= i < first_pos(b, f) ==> !f(#[trigger] b[i]),
        first_pos(b, f) < b.len() ==> f(b[first_pos(b, f)]),
    decreases b.len()
{
    if b.len() > 0 && !f(b[0]) {
        let r = b.subrange(1, b.len() as int);
        lemma_first_pos(r, f);
        assert forall|i: int| 0 <= i < first_pos(b, f) implies !f(#[trigger] b[i]) by { if i > 0 { assert(b[i] == r[i - 1]); } }
    }
}
pub proof fn lemma_first_pos_unique(b: Seq<u8>, f: spec_fn(u8) -> bool, n: int)
    requires 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> !f(#[trigger] b[i]), n < b.len() ==> f(b[n]),
    ensures first_pos(b, f) == n,
{
    lemma_first_pos(b, f);
    let p = first_pos(b, f);
    if p < n { assert(!f(b[p])); }
    if n < p { assert(!f(b[n])); }
}
/// memchr::memchr / memchr2
#[verifier::external_body]
pub fn memchr(x: u8, b: &[u8]) -> (r: Option<usize>)
    ensures r matches Some(n) ==> n < b@.len() && b@[n as int] == x && forall|i: int| 0 <= i < n ==> #[trigger] b@[i] != x,
        r is None ==> forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] != x,
{ unimplemented!() }
#[verifier::external_body]
pub fn memchr2(x: u8, y: u8, b: &[u8]) -> (r: Option<usize>)
    ensures r matches Some(n) ==> n < b@.len() && (b@[n as int] == x || b@[n as int] == y) && forall|i: int| 0 <= i < n ==> (#[trigger] b@[i]) != x && b@[i] != y,
        r is None ==> forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]) != x && b@[i] != y,
{ unimplemented!() }

/// UTF-8 never uses the bytes 0xF8..0xFF
pub proof fn lemma_utf8_bits(b: u8)
    by (bit_vector)
    ensures b & 0x80 == 0 ==> b < 0xF8, b & 0xE0 == 0xC0 ==> b < 0xF8, b & 0xF0 == 0xE0 ==> b < 0xF8, b & 0xF8 == 0xF0 ==> b < 0xF8, b & 0xC0 == 0x80 ==> b < 0xF8,
{}
pub proof fn lemma_valid_bytes(b: Seq<u8>)
    requires valid_utf8(b),
    ensures forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0xF8u8
    decreases b.len()
{
    reveal_with_fuel(valid_utf8, 2);
    if b.len() > 0 {
        let n = length_of_first_scalar(b);
        let r = pop_first_scalar(b);
        assert(1 <= n <= 4);
        lemma_valid_bytes(r);
        lemma_utf8_bits(b[0]);
        if n > 1 { lemma_utf8_bits(b[1]); }
        if n > 2 { lemma_utf8_bits(b[2]); }
        if n > 3 { lemma_utf8_bits(b[3]); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0xF8u8 by {
            if i >= n { assert(r[i - n] == b[i]); }
        }
    }
}
pub proof fn lemma_encode_bytes(s: Seq<char>)
    ensures forall|i: int| 0 <= i < encode_utf8(s).len() ==> #[trigger] encode_utf8(s)[i] < 0xF8u8
{
    encode_utf8_valid_utf8(s);
    lemma_valid_bytes(encode_utf8(s));
}
pub proof fn lemma_encode_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}
} // verus!
//@grw std :: str :: from_utf8 ( $$x ) ==> vx_from_utf8 ( $x )
//@grw str :: from_utf8 ( $$x ) ==> vx_from_utf8 ( $x )
//@grw String :: from_utf8_lossy ( $$x ) ==> vx_from_utf8_lossy ( $x )
//@grw String :: from_utf8 ( $$x ) ==> vx_string_from_utf8 ( $x )
