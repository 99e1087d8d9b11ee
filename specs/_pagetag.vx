verus! {
//@item measureme/src/serialization.rs :: enum PageTag
//@derive Copy, Clone, PartialEq, Eq, Structural
//@end

impl PageTag {
//@item measureme/src/serialization.rs :: impl std::convert::TryFrom<u8> for PageTag :: fn try_from
//@name try_from_u8
//@retty Result<PageTag, String>
//@ret r
//@spec
    ensures
        r matches Ok(t) ==> t as u8 == value,
        r.is_ok() <==> value <= 2,
//@end
}
} // verus!
//@grw TryInto :: try_into ( $$x ) . unwrap ( ) ==> PageTag :: try_from_u8 ( $x ) . unwrap ( )
//@grw $p:place [ $$x ] . try_into ( ) . unwrap ( ) ==> PageTag :: try_from_u8 ( $p [ $x ] ) . unwrap ( )
