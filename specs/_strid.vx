verus! {
// ---- ids of strings ------------------------------------------------------------------------------------------------
impl Addr {
//@item measureme/src/serialization.rs :: impl Addr :: fn as_usize
//@ret r
//@spec
    ensures r == self.0,
//@end
}
//@item measureme/src/stringtable.rs :: const TERMINATOR
//@end
//@item measureme/src/stringtable.rs :: const STRING_REF_TAG
//@end
//@item measureme/src/stringtable.rs :: const STRING_REF_ENCODED_SIZE
//@end
//@item measureme/src/stringtable.rs :: const MAX_USER_VIRTUAL_STRING_ID
//@end
//@item measureme/src/stringtable.rs :: const METADATA_STRING_ID
//@end
//@item measureme/src/stringtable.rs :: const INVALID_STRING_ID
//@end
//@item measureme/src/stringtable.rs :: const FIRST_REGULAR_STRING_ID
//@end
//@item measureme/src/stringtable.rs :: struct StringId
//@derive Clone, Copy, PartialEq, Eq, Structural
//@end

pub open spec fn user_virtual(id: u64) -> bool { id <= MAX_USER_VIRTUAL_STRING_ID }
pub open spec fn concrete(id: u64) -> bool { id >= FIRST_REGULAR_STRING_ID }

/// C09: the four kinds of id are disjoint, cover every u64, and the tag bytes cannot occur in UTF-8 text
pub fn id_ranges(id: u64)
{
    assert(user_virtual(id) || id == METADATA_STRING_ID || id == INVALID_STRING_ID || concrete(id)); //# C09
    assert(!(user_virtual(id) && id == METADATA_STRING_ID)); //# C09
    assert(!(user_virtual(id) && id == INVALID_STRING_ID)); //# C09
    assert(!(user_virtual(id) && concrete(id))); //# C09
    assert(METADATA_STRING_ID != INVALID_STRING_ID && !concrete(METADATA_STRING_ID) && !concrete(INVALID_STRING_ID)); //# C09
    assert(TERMINATOR >= 0xF8 && STRING_REF_TAG >= 0xF8 && TERMINATOR != STRING_REF_TAG); //# C08
    assert(STRING_REF_ENCODED_SIZE == 9); //# C08
}

impl StringId {
//@item measureme/src/stringtable.rs :: impl StringId :: const INVALID
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn new
//@rwsig impl Into < u64 > ==> u64
//@rw id . into ( ) ==> id
//@ret r
//@spec
    ensures r.0 == id, //# C08, C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn new_virtual
//@rwsig impl Into < u64 > ==> u64
//@rw id . into ( ) ==> id
//@ret r
//@spec
    requires user_virtual(id),
    ensures r.0 == id, //# C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn new_virtual
//@name new_virtual_rejects
//@rwsig impl Into < u64 > ==> u64
//@rw id . into ( ) ==> id
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@ret r
//@spec
    ensures user_virtual(id), //# C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn is_virtual
//@ret r
//@spec
    ensures r == (user_virtual(self.0) || self.0 == METADATA_STRING_ID), //# C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn as_u64
//@ret r
//@spec
    ensures r == self.0, //# C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn from_addr
//@ret r
//@spec
    requires addr.0 + FIRST_REGULAR_STRING_ID <= u64::MAX,
    ensures r.0 == addr.0 + FIRST_REGULAR_STRING_ID, concrete(r.0), //# C08, C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn to_addr
//@ret r
//@spec
    requires concrete(self.0),
    ensures r.0 == self.0 - FIRST_REGULAR_STRING_ID, //# C08, C09
//@end
//@item measureme/src/stringtable.rs :: impl StringId :: fn to_addr
//@name to_addr_rejects
//@rw $$x . unwrap ( ) ==> vx_unwrap ( $x )
//@ret r
//@spec
    ensures concrete(self.0), //# C09
//@end
}
pub fn vx_unwrap<T>(r: Option<T>) -> (t: T)
    ensures r == Some(t)
{ match r { Some(t) => t, None => vx_never() } }

/// ids and addresses convert back and forth exactly
pub fn id_addr_roundtrip(a: Addr, id: StringId)
    requires a.0 + FIRST_REGULAR_STRING_ID <= u64::MAX, concrete(id.0),
{
    let x = StringId::from_addr(a).to_addr();
    assert(x.0 == a.0); //# C09
    let y = StringId::from_addr(id.to_addr());
    assert(y.0 == id.0); //# C09
}
} // verus!
