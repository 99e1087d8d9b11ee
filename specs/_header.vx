//@grw Box < dyn Error + Send + Sync > ==> VxError
//@grw , Box < dyn Error + Send + Sync >> ==> , VxError >
//@grw , Box < dyn Error >> ==> , VxError >
//@grw Box < dyn Error > ==> VxError
//@grw From :: from ( $$x ) ==> vx_error ( $x )
//@grw $v:id . into ( ) ==> vx_error ( $v )
verus! {
/// an error value (Box<dyn Error + Send + Sync>)
#[verifier::external_body]
pub struct VxError { x: u8 }
#[verifier::external_body]
pub fn vx_error<T>(t: T) -> (r: VxError) { unimplemented!() }
#[verifier::external_body]
pub struct Path { x: u8 }
impl Path {
    #[verifier::external_body]
    pub fn new<'a>(s: &'a str) -> (r: &'a Path) { unimplemented!() }
}
/// `==` on byte slices, byte arrays and integers
pub trait VxEq<B: ?Sized> {
    spec fn eq_spec(&self, o: &B) -> bool;
    fn eq(&self, o: &B) -> (r: bool) ensures r == self.eq_spec(o);
}
impl<'a, 'b> VxEq<&'b [u8; 4]> for &'a [u8] {
    open spec fn eq_spec(&self, o: &&'b [u8; 4]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn eq(&self, o: &&'b [u8; 4]) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b [u8]> for &'a [u8] {
    open spec fn eq_spec(&self, o: &&'b [u8]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn eq(&self, o: &&'b [u8]) -> (r: bool) { unimplemented!() }
}
impl<'a, 'b> VxEq<&'b [u8; 4]> for &'a [u8; 4] {
    open spec fn eq_spec(&self, o: &&'b [u8; 4]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn eq(&self, o: &&'b [u8; 4]) -> (r: bool) { unimplemented!() }
}
impl VxEq<u32> for u32 {
    open spec fn eq_spec(&self, o: &u32) -> bool { *self == *o }
    fn eq(&self, o: &u32) -> (r: bool) { *self == *o }
}
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.eq_spec(b) { a.eq(b) }
//@item measureme/src/file_header.rs :: const CURRENT_FILE_FORMAT_VERSION
//@end
//@item measureme/src/file_header.rs :: const FILE_MAGIC_TOP_LEVEL
//@rw & [ $x:rest ] ==> & 'static [ $x ]
//@end
//@item measureme/src/file_header.rs :: const FILE_MAGIC_EVENT_STREAM
//@rw & [ $x:rest ] ==> & 'static [ $x ]
//@end
//@item measureme/src/file_header.rs :: const FILE_MAGIC_STRINGTABLE_DATA
//@rw & [ $x:rest ] ==> & 'static [ $x ]
//@end
//@item measureme/src/file_header.rs :: const FILE_MAGIC_STRINGTABLE_INDEX
//@rw & [ $x:rest ] ==> & 'static [ $x ]
//@end
//@item measureme/src/file_header.rs :: const FILE_HEADER_SIZE
//@end
/// a header of this kind and the current version
pub open spec fn header_ok(b: Seq<u8>, magic: Seq<u8>) -> bool {
    b.len() >= 8 && b.subrange(0, 4) == magic && le32(b.subrange(4, 8)) == CURRENT_FILE_FORMAT_VERSION
}
//@item measureme/src/file_header.rs :: fn verify_file_header
//@rw $a:id != $b:id ==> ! vx_eq ( & $a , & $b )
//@rw $a:id == $b:id ==> vx_eq ( & $a , & $b )
//@ret r
//@spec
    ensures r is Ok <==> header_ok(bytes@, expected_magic@), //# C11
//@end
//@item measureme/src/file_header.rs :: fn strip_file_header
//@ret r
//@spec
    requires data@.len() >= 8,
    ensures r@ == data@.subrange(8, data@.len() as int), //# C08, C09, C11, C12
//@end
} // verus!
