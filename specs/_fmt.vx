// format!, println!: expanded into pieces; what `{}` shows.
//@formats
verus! {
pub open spec fn digit(n: int) -> char { (('0' as u32 + n) as u32) as char }
/// decimal digits of n >= 0
pub open spec fn dec(n: int) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(if n < 0 { 0 } else { n })] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn dec_signed(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec(-n) } else { dec(n) } }
/// Display
pub trait VxShow { spec fn shown(&self) -> Seq<char>; fn vx_show_to(&self, o: &mut String) ensures final(o)@ == old(o)@ + self.shown(); }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for u128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl VxShow for i64 { open spec fn shown(&self) -> Seq<char> { dec_signed(*self as int) } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
pub fn vx_show<T: VxShow + ?Sized>(o: &mut String, t: &T)
    ensures final(o)@ == old(o)@ + t.shown()
{ t.vx_show_to(o) }
pub open spec fn hex_digit(n: int) -> char { if n < 10 { (('0' as u32 + n) as u32) as char } else { (('a' as u32 + (n - 10)) as u32) as char } }
/// `{:04x}`
#[verifier::external_body]
pub fn vx_show_04x(o: &mut String, t: &u32)
    ensures *t < 0x10000 ==> final(o)@ == old(o)@ + seq![hex_digit(*t as int / 4096), hex_digit(*t as int / 256 % 16), hex_digit(*t as int / 16 % 16), hex_digit(*t as int % 16)]
{ unimplemented!() }
} // verus!
