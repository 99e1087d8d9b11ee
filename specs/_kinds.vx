// Event kinds: the texts of measureme::rustc, compared through small codes (the texts are proved distinct and as documented).
//@grw & $x:recv . event_kind [ .. ] ==> vx_kind ( & $x . event_kind )
//@grw & * $x:recv . event_kind ==> vx_kind ( & $x . event_kind )
//@grw $x:recv . event_kind . as_ref ( ) ==> vx_kind ( & $x . event_kind )
//@grw $x:recv . event_kind == $k:id ==> vx_kind ( & $x . event_kind ) == $k
//@grw $x:recv . event_kind != $k:id ==> vx_kind ( & $x . event_kind ) != $k
verus! {
pub const QUERY_EVENT_KIND: u32 = 1;
pub const GENERIC_ACTIVITY_EVENT_KIND: u32 = 2;
pub const INCREMENTAL_LOAD_RESULT_EVENT_KIND: u32 = 3;
pub const INCREMENTAL_RESULT_HASHING_EVENT_KIND: u32 = 4;
pub const QUERY_BLOCKED_EVENT_KIND: u32 = 5;
pub const QUERY_CACHE_HIT_EVENT_KIND: u32 = 6;
pub const ARTIFACT_SIZE_EVENT_KIND: u32 = 7;
pub mod rustc_texts {
use vstd::prelude::*;
verus! {
//@item measureme/src/rustc.rs :: const QUERY_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const GENERIC_ACTIVITY_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const INCREMENTAL_LOAD_RESULT_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const INCREMENTAL_RESULT_HASHING_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const QUERY_BLOCKED_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const QUERY_CACHE_HIT_EVENT_KIND
//@rw & str ==> & 'static str
//@end
//@item measureme/src/rustc.rs :: const ARTIFACT_SIZE_EVENT_KIND
//@rw & str ==> & 'static str
//@end
} // verus!
}
/// the documented kinds
pub open spec fn code(k: Seq<char>) -> u32 {
    if k == "Query"@ { 1 } else if k == "GenericActivity"@ { 2 } else if k == "IncrementalLoadResult"@ { 3 } else if k == "IncrementalResultHashing"@ { 4 }
    else if k == "QueryBlocked"@ { 5 } else if k == "QueryCacheHit"@ { 6 } else if k == "ArtifactSize"@ { 7 } else { 0 }
}
/// comparing with the constants of the code is comparing with the documented texts, and those are distinct
pub proof fn lemma_kinds()
    ensures
        rustc_texts::QUERY_EVENT_KIND@ == "Query"@, //# C14
        rustc_texts::GENERIC_ACTIVITY_EVENT_KIND@ == "GenericActivity"@, //# C14
        rustc_texts::INCREMENTAL_LOAD_RESULT_EVENT_KIND@ == "IncrementalLoadResult"@, //# C14
        rustc_texts::INCREMENTAL_RESULT_HASHING_EVENT_KIND@ == "IncrementalResultHashing"@, //# C14
        rustc_texts::QUERY_BLOCKED_EVENT_KIND@ == "QueryBlocked"@, //# C14
        rustc_texts::QUERY_CACHE_HIT_EVENT_KIND@ == "QueryCacheHit"@, //# C14
        rustc_texts::ARTIFACT_SIZE_EVENT_KIND@ == "ArtifactSize"@, //# C16
        code("Query"@) == 1, code("GenericActivity"@) == 2, code("IncrementalLoadResult"@) == 3, code("IncrementalResultHashing"@) == 4,
        code("QueryBlocked"@) == 5, code("QueryCacheHit"@) == 6, code("ArtifactSize"@) == 7,
{
    reveal_strlit("Query"); reveal_strlit("GenericActivity"); reveal_strlit("IncrementalLoadResult"); reveal_strlit("IncrementalResultHashing");
    reveal_strlit("QueryBlocked"); reveal_strlit("QueryCacheHit"); reveal_strlit("ArtifactSize");
    assert("Query"@.len() == 5); assert("GenericActivity"@.len() == 15); assert("IncrementalLoadResult"@.len() == 21);
    assert("IncrementalResultHashing"@.len() == 24); assert("QueryBlocked"@.len() == 12); assert("QueryCacheHit"@.len() == 13);
    assert("ArtifactSize"@.len() == 12);
    assert("ArtifactSize"@[0] == 'A'); assert("QueryBlocked"@[0] == 'Q');
}
/// the kind as compared by `==` / `match` against the constants above
#[verifier::external_body]
pub fn vx_kind(k: &Cow<'_, str>) -> (r: u32) ensures r == code(k@) { unimplemented!() }
} // verus!
