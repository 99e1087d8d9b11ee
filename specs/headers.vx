// C11: headers of streams
//@include _base.vx
//@include _header.vx
//@include _addr.vx
//@include _sinkapi.vx
//@include _hdrwrite.vx
fn main() {}
verus! {
/// the four kinds are told apart
pub fn magics_distinct()
{
    assert(FILE_MAGIC_TOP_LEVEL@ != FILE_MAGIC_EVENT_STREAM@); //# C11
    assert(FILE_MAGIC_TOP_LEVEL@ != FILE_MAGIC_STRINGTABLE_DATA@); //# C11
    assert(FILE_MAGIC_TOP_LEVEL@ != FILE_MAGIC_STRINGTABLE_INDEX@); //# C11
    assert(FILE_MAGIC_EVENT_STREAM@ != FILE_MAGIC_STRINGTABLE_DATA@); //# C11
    assert(FILE_MAGIC_EVENT_STREAM@ != FILE_MAGIC_STRINGTABLE_INDEX@); //# C11
    assert(FILE_MAGIC_STRINGTABLE_DATA@ != FILE_MAGIC_STRINGTABLE_INDEX@); //# C11
}
} // verus!
