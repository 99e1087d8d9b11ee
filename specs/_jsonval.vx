// serde_json values: json!, derive(Serialize), serialize_element.
//@json
verus! {
#[verifier::ext_equal]
pub enum Js { Null, Num(int), Text(Seq<char>), Obj(Map<Seq<char>, Js>) }
/// serde_json::Value
#[verifier::external_body]
pub struct Value { x: u8 }
impl View for Value { type V = Js; uninterp spec fn view(&self) -> Js; }
/// what Serialize writes
pub trait VxSer { spec fn ser(&self) -> Js; /* what its serialize functions require */ spec fn can(&self) -> bool; }
impl VxSer for Value { open spec fn ser(&self) -> Js { self@ } open spec fn can(&self) -> bool { true } }
impl VxSer for str { open spec fn ser(&self) -> Js { Js::Text(self@) } open spec fn can(&self) -> bool { true } }
impl VxSer for String { open spec fn ser(&self) -> Js { Js::Text(self@) } open spec fn can(&self) -> bool { true } }
impl VxSer for u32 { open spec fn ser(&self) -> Js { Js::Num(*self as int) } open spec fn can(&self) -> bool { true } }
impl VxSer for u64 { open spec fn ser(&self) -> Js { Js::Num(*self as int) } open spec fn can(&self) -> bool { true } }
impl VxSer for i32 { open spec fn ser(&self) -> Js { Js::Num(*self as int) } open spec fn can(&self) -> bool { true } }
impl VxSer for usize { open spec fn ser(&self) -> Js { Js::Num(*self as int) } open spec fn can(&self) -> bool { true } }
impl<T: VxSer + ?Sized> VxSer for &T { open spec fn ser(&self) -> Js { (**self).ser() } open spec fn can(&self) -> bool { (**self).can() } }
impl<T: VxSer> VxSer for Option<T> { open spec fn ser(&self) -> Js { match *self { Some(t) => t.ser(), None => Js::Null } } open spec fn can(&self) -> bool { match *self { Some(t) => t.can(), None => true } } }
impl<V: VxSer> VxSer for StrMap<V> { open spec fn ser(&self) -> Js { Js::Obj(self@.map_values(|v: V| v.ser())) } open spec fn can(&self) -> bool { forall|k: Seq<char>| self@.dom().contains(k) ==> (#[trigger] self@[k]).can() } }
#[verifier::external_body]
pub fn vx_obj_new() -> (r: Value) ensures r@ == Js::Obj(Map::<Seq<char>, Js>::empty()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_obj_put(o: &mut Value, k: &str, v: Value)
    requires old(o)@ is Obj,
    ensures final(o)@ == Js::Obj(old(o)@->Obj_0.insert(k@, v@))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_js<T: VxSer>(t: &T) -> (r: Value) ensures r@ == t.ser() { unimplemented!() }
/// serde_json::Serializer on a file, as the sequence of what was written
#[verifier::external_body]
pub struct VxFile { x: u8 }
#[verifier::external_body]
pub struct VxSerializer { x: u8 }
#[verifier::external_body]
pub struct VxSeq { x: u8 }
impl View for VxSeq { type V = Seq<Js>; uninterp spec fn view(&self) -> Seq<Js>; }
/// the array in the file when the program ends without an error
pub uninterp spec fn written() -> Seq<Js>;
#[verifier::external_body]
pub fn vx_create(p: &str) -> (r: Result<VxFile, VxError>) { unimplemented!() }
impl VxSerializer {
    #[verifier::external_body]
    pub fn vx_new(f: VxFile) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_serialize_seq(&mut self) -> (r: Result<VxSeq, VxError>) ensures r matches Ok(s) ==> s@.len() == 0 { unimplemented!() }
}
impl VxSeq {
    #[verifier::external_body]
    pub fn serialize_element<T: VxSer>(&mut self, t: &T) -> (r: Result<(), VxError>)
        requires t.can(),
        ensures r is Ok ==> final(self)@ == old(self)@.push(t.ser())
    { unimplemented!() }
    /// the array is complete
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<(), VxError>) ensures r is Ok ==> self@ == written() { unimplemented!() }
}
/// the serializer of a single value
#[verifier::external_body]
pub struct VxJsonOut { x: u8 }
impl VxJsonOut {
    #[verifier::external_body]
    pub fn serialize_u64(self, n: u64) -> (r: Result<Value, VxError>) ensures r matches Ok(v) ==> v@ == Js::Num(n as int) { unimplemented!() }
}
} // verus!
