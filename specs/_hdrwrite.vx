verus! {
//@item measureme/src/file_header.rs :: fn write_file_header
//@rwsig & mut dyn std :: io :: Write ==> & mut StdWriter < '_ >
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@spec
    requires old(s).id() == old(w).sink,
    ensures
        r is Ok && old(w).excl ==> final(w).log == old(w).log + (final(w).log).subrange(old(w).log.len() as int, final(w).log.len() as int), //# C11
        r is Ok && old(w).excl ==> header_ok(final(w).log.subrange(old(w).log.len() as int, final(w).log.len() as int), file_magic@), //# C11
        r is Ok && old(w).excl ==> final(w).log.len() == old(w).log.len() + 8, //# C11
        final(s).id() == old(s).id(), r is Ok ==> final(w).sink == old(w).sink && final(w).excl == old(w).excl,
//@start
    let ghost w0 = *w;
//@tail vx_ret
    assert(w0.excl ==> w.log.subrange(w0.log.len() as int, w.log.len() as int).subrange(0, 4) =~= file_magic@);
    assert(w0.excl ==> w.log =~= w0.log + w.log.subrange(w0.log.len() as int, w.log.len() as int));
//@end
} // verus!
