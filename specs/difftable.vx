// C17: summarize diff, its tables and files
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fmt.vx
//@include _table.vx
fn main() {}
verus! {
//@item summarize/src/main.rs :: fn write_results_json
//@generics <T>
//@rwsig impl Serialize ==> T
//@params Tracked(d): Tracked<&mut Disk>
//@rw BufWriter :: new ( $$x ) ==> ( $x )
//@rw File :: create ( $$x ) ==> vx_create ( $x , Tracked ( & mut * d ) )
//@rw serde_json :: to_writer ( $$x ) ==> vx_to_writer ( $x , Tracked ( & mut * d ) )
//@ret r
//@spec
    ensures
        others_same(old(d).files, final(d).files, file.with_ext("json"@)), //# C17
        r is Ok ==> final(d).files == old(d).files.insert(file.with_ext("json"@), json_text(results)), //# C17
//@end
/// the summary a command line argument stands for
pub open spec fn results_at(p: PathBuf) -> AnalysisResults { if p.has_ext("json"@) { stored_results(p) } else { analysis_of(p) } }
//@item summarize/src/main.rs :: fn process_results
//@rw BufReader :: new ( $$x ) ==> ( $x )
//@rw File :: open ( $$x ) ==> vx_open ( $x )
//@rw serde_json :: from_reader ( $$x ) ==> vx_from_reader ( $x )
//@rw & & file ==> & file
//@rw $x:recv . extension ( ) . map_or ( false , | $e:id | $e == $s ) ==> $x . vx_has_extension ( $s )
//@rw $x:recv . extension ( ) . map_or ( false , | $e:id | $s == $e ) ==> $x . vx_has_extension ( $s )
//@rw $x:recv . extension ( ) . is_some_and ( | $e:id | $e == $s ) ==> $x . vx_has_extension ( $s )
//@rw $x:recv . extension ( ) == Some ( OsStr :: new ( $s ) ) ==> $x . vx_has_extension ( $s )
//@rw $x:recv . extension ( ) == Some ( $s . as_ref ( ) ) ==> $x . vx_has_extension ( $s )
//@ret r
//@spec
    ensures r matches Ok(x) ==> x == results_at(*file), //# C17
//@end

// ---- C17: the tables of summarize diff
//@item summarize/src/diff.rs :: struct SignedDuration
//@attr #[derive(Clone, Copy)]
//@end
//@item summarize/src/diff.rs :: struct QueryDataDiff
//@end
//@item summarize/src/diff.rs :: struct ArtifactSizeDiff
//@end
//@item summarize/src/diff.rs :: struct DiffResults
//@end
/// fmt::Formatter: the text written so far
#[verifier::external_body]
pub struct VxFormatter { x: u8 }
impl View for VxFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxFormatter {
    #[verifier::external_body]
    pub fn vx_write_text(&mut self, s: &str) -> (r: Result<(), VxError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub open spec fn debug_signed(d: SignedDuration) -> Seq<char> { (if d.is_positive { "+"@ } else { "-"@ }) + debugd(d.duration@ as int) }
impl VxDebug for SignedDuration { open spec fn debugged(&self) -> Seq<char> { debug_signed(*self) } }
impl VxDebug2 for SignedDuration { open spec fn shown2(&self) -> Seq<char> { debug_signed(*self) } }
impl SignedDuration {
//@item summarize/src/diff.rs :: impl fmt::Debug for SignedDuration :: fn fmt
//@rwsig fmt :: Formatter < '_ > ==> VxFormatter
//@rwsig fmt :: Result ==> Result < ( ) , VxError >
//@ret r
//@spec
    ensures r is Ok ==> final(f)@ == old(f)@ + debug_signed(*self), //# C17
//@start
    let ghost f0 = f@;
//@tail vx_ret
    proof { if vx_ret is Ok { assert(f@ =~= f0 + debug_signed(*self)); } } //# C17
//@end
}
/// contract proved in unit diff: what the difference of two summaries is
pub uninterp spec fn diff_of(base: AnalysisResults, change: AnalysisResults) -> DiffResults;
#[verifier::external_body]
pub fn calculate_diff(base: AnalysisResults, change: AnalysisResults) -> (r: DiffResults) ensures r == diff_of(base, change) { unimplemented!() }
/// str::contains
pub open spec fn has_part(t: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= t.len() - p.len() && #[trigger] t.subrange(i, i + p.len()) == p }
pub open spec fn excluded(ex: Seq<String>, l: Seq<char>) -> bool { exists|i: int| 0 <= i < ex.len() && has_part(l, (#[trigger] ex[i])@) }
#[verifier::external_body]
pub fn vx_contains(t: &String, p: &String) -> (r: bool) ensures r == has_part(t@, p@) { unimplemented!() }
/// Iterator::any
pub fn vx_any<F: Fn(&String) -> bool>(v: &Vec<String>, f: F) -> (r: bool)
    requires forall|e: &String| #[trigger] f.requires((e,)),
    ensures
        r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true), //# C17
        !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false), //# C17
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|e: &String| #[trigger] f.requires((e,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return true; }
        i += 1;
    }
    false
}
pub open spec fn dheader() -> Seq<Seq<char>> { seq!["Item"@, "Self Time"@, "Self Time Change"@, "Time"@, "Time Change"@, "Item count"@, "Cache hits"@, "Blocked time"@, "Incremental load time"@, "Incremental hashing time"@] }
pub open spec fn dline(q: QueryDataDiff) -> Seq<Seq<char>> {
    seq![q.label@, debug_signed(q.self_time), signed2(q.self_time_change) + "%"@, debug_signed(q.time), signed2(q.time_change) + "%"@, dec_plus(q.invocation_count as int), dec_plus(q.number_of_cache_hits as int), debug_signed(q.blocked_time), debug_signed(q.incremental_load_time), debug_signed(q.incremental_hashing_time)]
}
pub open spec fn drows(s: Seq<QueryDataDiff>, ex: Seq<String>, n: int) -> Seq<Seq<Seq<char>>>
    decreases n
{ if n <= 0 { seq![dheader()] } else if excluded(ex, s[n - 1].label@) { drows(s, ex, n - 1) } else { drows(s, ex, n - 1).push(dline(s[n - 1])) } }
pub open spec fn dsizes(s: Seq<ArtifactSizeDiff>, ex: Seq<String>, n: int) -> Seq<Seq<Seq<char>>>
    decreases n
{ if n <= 0 { seq![seq!["Item"@, "Artifact Size Change"@]] } else if excluded(ex, s[n - 1].label@) { dsizes(s, ex, n - 1) } else { dsizes(s, ex, n - 1).push(seq![s[n - 1].label@, dec_signed(s[n - 1].size_change as int) + " bytes"@]) } }
//@item summarize/src/main.rs :: struct DiffOpt
//@end
pub open spec fn the_diff(o: DiffOpt) -> DiffResults { diff_of(results_at(o.base), results_at(o.change)) }
//@item summarize/src/main.rs :: fn diff
//@attr #[verifier::loop_isolation(false)]
//@params vx_out: &mut VxOut, Tracked(d): Tracked<&mut Disk>
//@rw diff :: calculate_diff ( $$x ) ==> calculate_diff ( $x )
//@rw write_results_json ( $$x ) ==> write_results_json ( $x , Tracked ( & mut * d ) )
//@rw $x:recv . iter ( ) . any ( | $e:id | $l:recv . contains ( $e ) ) ==> vx_any ( & $x , | $e : & String | -> ( vx_o : bool ) ensures vx_o == has_part ( $l @ , $e @ ) { vx_contains ( & $l , $e ) } )
//@rw for $v:id in results . query_data $inv $body ==> { let mut vx_k : usize = 0 ; while vx_k < results . query_data . len ( ) $inv { let $v = & results . query_data [ vx_k ] ; vx_k += 1 ; $body } }
//@rw for $v:id in results . artifact_sizes $inv $body ==> { let mut vx_j : usize = 0 ; while vx_j < results . artifact_sizes . len ( ) $inv { let $v = & results . artifact_sizes [ vx_j ] ; vx_j += 1 ; $body } }
//@ret r
//@spec
    ensures
        r is Ok && !opt.json ==> final(vx_out)@ == old(vx_out)@
            .push(Out::Tab(drows(the_diff(opt).query_data@, opt.exclude@, the_diff(opt).query_data@.len() as int)))
            .push(Out::Text("Total cpu time: "@ + debug_signed(the_diff(opt).total_time) + "\n"@))
            .push(Out::Tab(dsizes(the_diff(opt).artifact_sizes@, opt.exclude@, the_diff(opt).artifact_sizes@.len() as int))), //# C17
        opt.json ==> final(vx_out)@ == old(vx_out)@, //# C17
        !opt.json ==> final(d).files == old(d).files, //# C17
        others_same(old(d).files, final(d).files, opt.change.with_ext("json"@)), //# C17
        r is Ok && opt.json ==> final(d).files == old(d).files.insert(opt.change.with_ext("json"@), json_text(the_diff(opt))), //# C17
//@loop 0
    invariant
        0 <= vx_k <= results.query_data@.len(), results == the_diff(opt),
        table@ == drows(results.query_data@, opt.exclude@, vx_k as int), //# C17
    decreases results.query_data@.len() - vx_k
//@before for query_data in $$x
    proof { assert(table@.last() =~= dheader()); assert(table@ =~= drows(results.query_data@, opt.exclude@, 0)); } //# C17
//@loopend 0
    proof { let q = results.query_data@[vx_k - 1]; if !excluded(opt.exclude@, q.label@) { assert(table@.last() =~= dline(q)); } } //# C17
//@loop 1
    invariant
        0 <= vx_j <= results.artifact_sizes@.len(), results == the_diff(opt),
        table@ == dsizes(results.artifact_sizes@, opt.exclude@, vx_j as int), //# C17
    decreases results.artifact_sizes@.len() - vx_j
//@before for artifact_size in $$x
    proof { assert(table@.last() =~= seq!["Item"@, "Artifact Size Change"@]); assert(table@ =~= dsizes(results.artifact_sizes@, opt.exclude@, 0)); } //# C17
//@loopend 1
    proof { let a = results.artifact_sizes@[vx_j - 1]; if !excluded(opt.exclude@, a.label@) { assert(table@.last() =~= seq![a.label@, dec_signed(a.size_change as int) + " bytes"@]); } } //# C17
//@end

// ---- the program
//@item summarize/src/main.rs :: struct SummarizeOpt
//@end
//@item summarize/src/main.rs :: struct AggregateOpt
//@end
//@item summarize/src/main.rs :: enum Opt
//@end
pub uninterp spec fn command_line() -> Opt;
impl Opt {
    #[verifier::external_body]
    pub fn parse() -> (r: Opt) ensures r == command_line() { unimplemented!() }
}
#[verifier::external_body] /* unit table */
pub fn summarize(o: SummarizeOpt, vx_out: &mut VxOut, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>) { unimplemented!() }
#[verifier::external_body] /* under contract in unit aggregate */
pub fn aggregate(o: AggregateOpt) -> (r: Result<(), VxError>) { unimplemented!() }
//@item summarize/src/main.rs :: fn main
//@name summarize_main
//@params vx_out: &mut VxOut, Tracked(d): Tracked<&mut Disk>
//@rw summarize ( opt ) ==> summarize ( opt , vx_out , Tracked ( & mut * d ) )
//@rw diff ( opt ) ==> diff ( opt , vx_out , Tracked ( & mut * d ) )
//@ret r
//@spec
    ensures
        command_line() matches Opt::Diff(o) ==> r is Ok && o.json ==> final(d).files == old(d).files.insert(o.change.with_ext("json"@), json_text(the_diff(o))), //# C17
        command_line() matches Opt::Diff(o) ==> r is Ok && !o.json ==> final(vx_out)@[old(vx_out)@.len() as int] == Out::Tab(drows(the_diff(o).query_data@, o.exclude@, the_diff(o).query_data@.len() as int)), //# C17
//@end
} // verus!
