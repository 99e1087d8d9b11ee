// C21: mmedit truncate
//@include _base.vx
//@include _pages.vx
//@include _pagetag.vx
//@include _header.vx
//@include _readhdr.vx contracts decoder
fn main() {}
//@grw Err ( vx_string ( ) . into ( ) ) ==> Err ( vx_error ( vx_string ( ) ) )
//@grw $x:place . to_vec ( ) ==> vx_to_vec ( & $x )
verus! {
/// std::mem::replace
pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
#[verifier::external_body]
pub fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
/// what is kept of a page list; `seen`: an event page came before
pub open spec fn kept(b: Seq<u8>, seen: bool) -> Seq<u8>
    decreases b.len()
{
    if !page_at(b) { Seq::empty() }
    else if b[0] == 0 && seen { kept(rest(b), seen) }
    else { b.subrange(0, 5 + page_size(b) as int) + kept(rest(b), seen || b[0] == 0) }
}
/// content of the first event page
pub open spec fn first_events(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{ if !page_at(b) { Seq::empty() } else if b[0] == 0 { content(b) } else { first_events(rest(b)) } }

/// the string streams are those of the original file, and the event stream is its first page
pub proof fn lemma_kept_streams(b: Seq<u8>, seen: bool)
    requires pages(b, u32::MAX as nat),
    ensures
        pages(kept(b, seen), u32::MAX as nat), //# C21
        stream(kept(b, seen), 1) == stream(b, 1), //# C21
        stream(kept(b, seen), 2) == stream(b, 2), //# C21
        stream(kept(b, seen), 0) == (if seen { Seq::<u8>::empty() } else { first_events(b) }), //# C21
    decreases b.len()
{
    if b.len() > 0 {
        let n = 5 + page_size(b) as int;
        let p = b.subrange(0, n);
        let s2 = seen || b[0] == 0;
        lemma_kept_streams(rest(b), s2);
        assert(p.subrange(1, 5) =~= b.subrange(1, 5));
        lemma_single_page(p, u32::MAX as nat);
        lemma_pages_append(p, kept(rest(b), s2), u32::MAX as nat);
        assert(content(p) =~= content(b));
        assert(Seq::<u8>::empty() + stream(rest(b), 1) =~= stream(rest(b), 1));
        assert(Seq::<u8>::empty() + stream(rest(b), 2) =~= stream(rest(b), 2));
        assert(Seq::<u8>::empty() + first_events(rest(b)) =~= first_events(rest(b)));
        assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
        assert(content(b) + Seq::<u8>::empty() =~= content(b));
        let k = kept(rest(b), s2);
        assert(stream(p + k, 0) == stream(p, 0) + stream(k, 0));
        assert(stream(p + k, 1) == stream(p, 1) + stream(k, 1));
        assert(stream(p + k, 2) == stream(p, 2) + stream(k, 2));
    } else {
        assert(stream(b, 0) =~= Seq::empty());
    }
}
pub open spec fn tr_ok(f: Seq<u8>) -> bool {
    f.len() >= 8 && f.subrange(0, 4) == FILE_MAGIC_TOP_LEVEL@ && (le32(f.subrange(4, 8)) == 7 || le32(f.subrange(4, 8)) == 8)
}
//@item mmedit/src/main.rs :: fn truncate
//@ret r
//@spec
    requires tr_ok(file_contents@) ==> pages(file_contents@.subrange(8, file_contents@.len() as int), u32::MAX as nat),
    ensures
        r is Ok == tr_ok(file_contents@), //# C21
        r matches Ok(t) ==> t@ == file_contents@.subrange(0, 8) + kept(file_contents@.subrange(8, file_contents@.len() as int), false), //# C21
//@start
    proof { axiom_slice_len(file_contents); }
    let ghost f = file_contents@;
    let ghost b = file_contents@.subrange(8, file_contents@.len() as int);
//@before while
    proof {
        assert(paged_data@ == b);
        assert(b.subrange(0, b.len() as int) =~= b);
    }
//@loop 0
    invariant
        0 <= pos <= b.len() <= 0x7fff_ffff_ffff_ffff, paged_data@ == b, f.len() >= 8,
        pages(b.subrange(pos as int, b.len() as int), u32::MAX as nat),
        f.subrange(0, 8) + kept(b, false) == truncated@ + kept(b.subrange(pos as int, b.len() as int), event_page_emitted), //# C21
    decreases b.len() - pos,
//@loopstart 0
    let ghost r0 = b.subrange(pos as int, b.len() as int);
    let ghost pos0 = pos as int;
    let ghost vx_n = 5 + page_size(r0) as int;
    let ghost t0 = truncated@;
    let ghost e0 = event_page_emitted;
    proof {
        assert(b.subrange(pos as int + 1, pos as int + 5) =~= r0.subrange(1, 5));
        assert(r0[0] == b[pos as int]);
    }
//@loopend 0
    proof {
        let n = vx_n;
        assert(rest(r0) =~= b.subrange(pos as int, b.len() as int));
        assert(b.subrange(pos0, pos0 + n) =~= r0.subrange(0, n));
        assert(t0 + (r0.subrange(0, n) + kept(rest(r0), event_page_emitted)) =~= (t0 + r0.subrange(0, n)) + kept(rest(r0), event_page_emitted));
    }
//@tail vx_ret
    assert(f.len() >= 8 && tr_ok(f) ==> kept(b.subrange(b.len() as int, b.len() as int), true) =~= Seq::empty());
    assert(f.len() >= 8 && tr_ok(f) ==> kept(b.subrange(b.len() as int, b.len() as int), false) =~= Seq::empty());
//@end

// ---- the program: command line and file system -----------------------------------------------------------------------
#[verifier::external_body]
pub struct PathBuf { x: u8 }
impl PathBuf {
    pub uninterp spec fn with_ext(self, e: Seq<char>) -> PathBuf;
    /// Path::with_extension
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures r == self.with_ext(e@) { unimplemented!() }
}
/// contents of the files that can be read
pub tracked struct Disk { pub ghost files: Map<PathBuf, Seq<u8>> }
pub open spec fn others_same(a: Map<PathBuf, Seq<u8>>, b: Map<PathBuf, Seq<u8>>, p: PathBuf) -> bool { a.remove(p) == b.remove(p) }
#[verifier::external_body]
pub fn vx_read(p: &PathBuf, Tracked(d): Tracked<&mut Disk>) -> (r: Result<Vec<u8>, VxError>)
    ensures final(d).files == old(d).files, r matches Ok(v) ==> old(d).files.dom().contains(*p) && v@ == old(d).files[*p]
{ unimplemented!() }
/// std::fs::write; a failing write may leave anything under that path
#[verifier::external_body]
pub fn vx_write(p: PathBuf, v: Vec<u8>, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>)
    ensures
        r is Ok ==> final(d).files == old(d).files.insert(p, v@),
        others_same(old(d).files, final(d).files, p),
{ unimplemented!() }
pub uninterp spec fn command_line() -> Opt;
#[verifier::external_body]
pub fn vx_parse() -> (r: Opt) ensures r == command_line() { unimplemented!() }
pub open spec fn target() -> PathBuf { match command_line() { Opt::Truncate(o) => o.file } }
pub open spec fn truncated_of(f: Seq<u8>) -> Seq<u8> { f.subrange(0, 8) + kept(f.subrange(8, f.len() as int), false) }
//@item mmedit/src/main.rs :: struct TruncateOpt
//@end
//@item mmedit/src/main.rs :: enum Opt
//@end
//@item mmedit/src/main.rs :: fn main
//@name mmedit_main
//@params Tracked(d): Tracked<&mut Disk>
//@rw Opt :: parse ( ) ==> vx_parse ( )
//@rw std :: fs :: read ( $$x ) ==> vx_read ( $x , Tracked ( & mut * d ) )
//@rw fs :: read ( $$x ) ==> vx_read ( $x , Tracked ( & mut * d ) )
//@rw std :: fs :: write ( $$x ) ==> vx_write ( $x , Tracked ( & mut * d ) )
//@rw fs :: write ( $$x ) ==> vx_write ( $x , Tracked ( & mut * d ) )
//@ret r
//@spec
    requires
        old(d).files.dom().contains(target()) && tr_ok(old(d).files[target()])
            ==> pages(old(d).files[target()].subrange(8, old(d).files[target()].len() as int), u32::MAX as nat),
    ensures
        r is Ok ==> old(d).files.dom().contains(target()) && tr_ok(old(d).files[target()]), //# C21
        r is Ok ==> final(d).files == old(d).files.insert(target().with_ext("truncated.mm_profdata"@), truncated_of(old(d).files[target()])), //# C21
        // nothing but the output is written; a refused file writes nothing
        others_same(old(d).files, final(d).files, target().with_ext("truncated.mm_profdata"@)), //# C21
        old(d).files.dom().contains(target()) && !tr_ok(old(d).files[target()]) ==> r is Err && final(d).files == old(d).files, //# C21
//@end
} // verus!
