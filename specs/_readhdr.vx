verus! {
//@item decodeme/src/lib.rs :: fn read_file_header
//@props C11
//@rw actual_magic != expected_magic ==> ! vx_eq ( & actual_magic , & expected_magic )
//@rw actual_magic == expected_magic ==> vx_eq ( & actual_magic , & expected_magic )
//@ret r
//@spec
    ensures
        r is Ok == (bytes@.len() >= 8 && bytes@.subrange(0, 4) == expected_magic@), //# C11
        r matches Ok(v) ==> v == le32(bytes@.subrange(4, 8)), //# C11
//@end
} // verus!
