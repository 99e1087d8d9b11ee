// C25, C16: the tables of summarize summarize
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fmt.vx
//@include _table.vx
fn main() {}
verus! {
/* contract proved in unit difftable */
#[verifier::external_body]
pub fn write_results_json<T>(file: &PathBuf, results: T, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>)
    ensures
        others_same(old(d).files, final(d).files, file.with_ext("json"@)),
        r is Ok ==> final(d).files == old(d).files.insert(file.with_ext("json"@), json_text(results)),
{ unimplemented!() }
pub open spec fn pairs(c: Seq<(&str, bool)>) -> Seq<(Seq<char>, bool)> { c.map_values(|p: (&str, bool)| (p.0@, p.1)) }
/// the cells to be shown among the first n
pub open spec fn shown(c: Seq<(Seq<char>, bool)>, n: int) -> Seq<Seq<char>>
    decreases n
{ if n <= 0 { Seq::empty() } else if c[n - 1].1 { shown(c, n - 1).push(c[n - 1].0) } else { shown(c, n - 1) } }
//@item summarize/src/main.rs :: fn summarize :: fn filter_cells
//@rw $x:recv . iter ( ) . filter ( | ( _ , $s:id ) | $$p ) . map ( | ( $c:id , _ ) | $$e ) . collect ( ) ==> { let mut vx_r : Vec < Cell > = Vec :: new ( ) ; let mut vx_i : usize = 0 ; proof { assert ( cell_texts ( vx_r @ ) . len ( ) == 0 ) ; lemma_none ( cell_texts ( vx_r @ ) , pairs ( $x @ ) ) ; } while vx_i < $x . len ( ) invariant 0 <= vx_i <= $x @ . len ( ) , cell_texts ( vx_r @ ) == shown ( pairs ( $x @ ) , vx_i as int ) , decreases $x @ . len ( ) - vx_i { let $s = & $x [ vx_i ] . 1 ; let $c = $x [ vx_i ] . 0 ; let ghost vx_r0 = vx_r @ ; if $p { let vx_c = $e ; proof { lemma_cells ( vx_r0 , vx_c ) ; } vx_r . push ( vx_c ) ; } vx_i += 1 ; } vx_r }
//@ret r
//@spec
    ensures cell_texts(r@) == shown(pairs(cells@), cells@.len() as int), //# C25
//@end
proof fn lemma_none(a: Seq<Seq<char>>, c: Seq<(Seq<char>, bool)>)
    requires a.len() == 0,
    ensures a == shown(c, 0),
{ assert(a =~= Seq::empty()); }
proof fn lemma_cells(v: Seq<Cell>, c: Cell)
    ensures cell_texts(v.push(c)) == cell_texts(v).push(c@)
{ assert(cell_texts(v.push(c)) =~= cell_texts(v).push(c@)); }

// ---- C25
/// which columns have data in the first n items
pub struct Cols { pub hits: bool, pub blocked: bool, pub load: bool, pub hash: bool }
pub open spec fn any_hits(s: Seq<QueryData>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).number_of_cache_hits != 0 }
pub open spec fn any_blocked(s: Seq<QueryData>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).blocked_time@ != 0 }
pub open spec fn any_load(s: Seq<QueryData>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).incremental_load_time@ != 0 }
pub open spec fn any_hash(s: Seq<QueryData>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).incremental_hashing_time@ != 0 }
pub open spec fn cols(s: Seq<QueryData>, n: int) -> Cols { Cols { hits: any_hits(s, n), blocked: any_blocked(s, n), load: any_load(s, n), hash: any_hash(s, n) } }
pub open spec fn header(c: Cols) -> Seq<(Seq<char>, bool)> {
    seq![("Item"@, true), ("Self time"@, true), ("% of total time"@, true), ("Time"@, true), ("Item count"@, true), ("Cache hits"@, c.hits), ("Blocked time"@, c.blocked), ("Incremental load time"@, c.load), ("Incremental result hashing time"@, c.hash)]
}
pub open spec fn percent(d: QueryData, total: Duration) -> VxF64 { fmul(fdiv(float(d.self_time@ as int), float(total@ as int)), float(100)) }
pub open spec fn line(d: QueryData, total: Duration, c: Cols) -> Seq<(Seq<char>, bool)> {
    seq![(d.label@, true), (debug2(d.self_time@ as int), true), (fixed3(percent(d, total)), true), (debug2(d.time@ as int), true), (dec(d.invocation_count as int), true), (dec(d.number_of_cache_hits as int), c.hits), (debug2(d.blocked_time@ as int), c.blocked), (debug2(d.incremental_load_time@ as int), c.load), (debug2(d.incremental_hashing_time@ as int), c.hash)]
}
pub open spec fn full(c: Seq<(Seq<char>, bool)>) -> Seq<Seq<char>> { shown(c, c.len() as int) }
/// how many of the rows from n on are above the limit before the first that is not
pub open spec fn cut(s: Seq<QueryData>, total: Duration, p: VxF64, n: int) -> int
    decreases s.len() - n
{ if n >= s.len() || fcmp(percent(s[n], total), p) == Some(Ordering::Less) { n } else { cut(s, total, p, n + 1) } }
pub open spec fn rows(s: Seq<QueryData>, total: Duration, c: Cols, n: int) -> Seq<Seq<Seq<char>>>
    decreases n
{ if n <= 0 { seq![full(header(c))] } else { rows(s, total, c, n - 1).push(full(line(s[n - 1], total, c))) } }
pub open spec fn rearranges(p: Seq<int>, n: nat) -> bool {
    p.len() == n && p.no_duplicates() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|j: int| 0 <= j < n ==> #[trigger] p.contains(j))
}
pub open spec fn rearranged(a: Seq<QueryData>, b: Seq<QueryData>) -> bool { exists|p: Seq<int>| #[trigger] rearranges(p, a.len()) && b == p.map_values(|i: int| a[i]) }
pub open spec fn descends(s: Seq<QueryData>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).self_time@ >= (#[trigger] s[j]).self_time@ }
/// the table of a summary
pub open spec fn summary_table(r: AnalysisResults, p: VxF64, t: Seq<Seq<Seq<char>>>) -> bool {
    exists|q: Seq<QueryData>| #[trigger] rearranged(r.query_data@, q) && descends(q) && t == rows(q, r.total_time, cols(q, q.len() as int), cut(q, r.total_time, p, 0))
}
/// what the rows shown add up to
pub open spec fn account(s: Seq<QueryData>, total: Duration, n: int) -> VxF64
    decreases n
{ if n <= 0 { float(0) } else { fadd(account(s, total, n - 1), percent(s[n - 1], total)) } }
pub open spec fn filtered(x: VxF64) -> Seq<char> { "Filtered results account for "@ + fixed3(x) + "% of total time."@ + "\n"@ }
/// everything that is printed, the items being q
pub open spec fn report(r: AnalysisResults, q: Seq<QueryData>, p: VxF64) -> Seq<Out> {
    let n = cut(q, r.total_time, p, 0);
    let a = seq![Out::Tab(rows(q, r.total_time, cols(q, q.len() as int), n)), Out::Text("Total cpu time: "@ + debugd(r.total_time@ as int) + "\n"@)];
    let b = if feq(p, float(0)) { a } else { a.push(Out::Text(filtered(account(q, r.total_time, n)))) };
    b.push(Out::Tab(sizes(r.artifact_sizes@, r.artifact_sizes@.len() as int)))
}
pub open spec fn reported(r: AnalysisResults, p: VxF64, o: Seq<Out>) -> bool { exists|q: Seq<QueryData>| #[trigger] rearranged(r.query_data@, q) && descends(q) && o == report(r, q, p) }
/// slice::sort_by with an order by decreasing self time
#[verifier::external_body]
pub fn vx_sort_by<F: Fn(&QueryData, &QueryData) -> Ordering>(v: &mut Vec<QueryData>, f: F)
    requires forall|a: &QueryData, b: &QueryData| #[trigger] f.requires((a, b)), forall|a: &QueryData, b: &QueryData, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == cmp_int(b.self_time@ as int, a.self_time@ as int),
    ensures rearranged(old(v)@, final(v)@), descends(final(v)@),
{ unimplemented!() }
/// the columns do not depend on the order
proof fn lemma_cols(a: Seq<QueryData>, b: Seq<QueryData>)
    requires rearranged(a, b),
    ensures cols(a, a.len() as int) == cols(b, b.len() as int), //# C25
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, a.len()) && b == p.map_values(|i: int| a[i]);
    let n = a.len() as int;
    assert(b.len() == n);
    assert forall|j: int| 0 <= j < n implies exists|i: int| 0 <= i < n && b[i] == #[trigger] a[j] by { assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(b[i] == a[j]); }
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == a[p[i]] by {}
}
proof fn lemma_cut(s: Seq<QueryData>, total: Duration, p: VxF64, n: int)
    requires 0 <= n <= s.len(),
    ensures
        n <= cut(s, total, p, n) <= s.len(), //# C25
        n < s.len() && fcmp(percent(s[n], total), p) != Some(Ordering::Less) ==> cut(s, total, p, n) == cut(s, total, p, n + 1), //# C25
        n == s.len() || fcmp(percent(s[n], total), p) == Some(Ordering::Less) ==> cut(s, total, p, n) == n, //# C25
    decreases s.len() - n
{ if n < s.len() { lemma_cut(s, total, p, n + 1); } }
proof fn lemma_any(s: Seq<QueryData>, n: int)
    requires 0 <= n < s.len(),
    ensures
        any_hits(s, n + 1) == (any_hits(s, n) || s[n].number_of_cache_hits != 0), any_blocked(s, n + 1) == (any_blocked(s, n) || s[n].blocked_time@ != 0),
        any_load(s, n + 1) == (any_load(s, n) || s[n].incremental_load_time@ != 0), any_hash(s, n + 1) == (any_hash(s, n) || s[n].incremental_hashing_time@ != 0),
{
    if any_hits(s, n) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).number_of_cache_hits != 0; assert(0 <= i < n + 1); }
}
proof fn lemma_more(s: Seq<QueryData>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        any_hits(s, n) ==> any_hits(s, s.len() as int), any_blocked(s, n) ==> any_blocked(s, s.len() as int),
        any_load(s, n) ==> any_load(s, s.len() as int), any_hash(s, n) ==> any_hash(s, s.len() as int),
{}
pub open spec fn same(v: Seq<(&str, bool)>, w: Seq<(Seq<char>, bool)>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> v[i].0@ == (#[trigger] w[i]).0 && v[i].1 == w[i].1 }
proof fn lemma_line(d: QueryData, total: Duration, c: Cols)
    ensures forall|v: Seq<(&str, bool)>| same(v, line(d, total, c)) ==> #[trigger] pairs(v) == line(d, total, c)
{ assert forall|v: Seq<(&str, bool)>| same(v, line(d, total, c)) implies #[trigger] pairs(v) == line(d, total, c) by { assert(pairs(v) =~= line(d, total, c)); } }
pub trait VxAsText { spec fn text(&self) -> Seq<char>; fn vx_text(&self) -> (r: &str) ensures r@ == self.text(); }
impl VxAsText for String { open spec fn text(&self) -> Seq<char> { self@ } fn vx_text(&self) -> (r: &str) { self.as_str() } }
//@item summarize/src/main.rs :: struct SummarizeOpt
//@end
//@item summarize/src/main.rs :: fn summarize
//@rw percent_total_time += $$x ; ==> percent_total_time = percent_total_time + $x ;
//@params vx_out: &mut VxOut, Tracked(d): Tracked<&mut Disk>
//@rw write_results_json ( $$x ) ==> write_results_json ( $x , Tracked ( & mut * d ) )
//@rw fn filter_cells $a -> Vec < Cell > $b ==>
//@rw eprintln ! $x ; ==>
//@rw ( & query_data . label , $f:id ) ==> ( query_data . label . vx_text ( ) , $f )
//@rw ( & $b , $f:id ) ==> ( ( $b ) . vx_text ( ) , $f )
//@rw ( & $b , $f:id , ) ==> ( ( $b ) . vx_text ( ) , $f )
//@rw filter_cells ( & [ $$x ] ) ==> filter_cells ( & vec ! [ $x ] )
//@rw let columns = & [ $$x ] ; ==> let columns = & vec ! [ $x ] ;
//@rw results . query_data . sort_by ( | $a:id , $b:id | $$e ) ==> vx_sort_by ( & mut results . query_data , | $a : & QueryData , $b : & QueryData | -> ( o : Ordering ) ensures o == cmp_int ( $b . self_time @ as int , $a . self_time @ as int ) { $e } )
//@rw for $v:id in & results . query_data $inv $body ==> { let mut vx_i : usize = 0 ; # [ verifier :: loop_isolation ( false ) ] # [ verifier :: allow_complex_invariants ] while vx_i < results . query_data . len ( ) $inv { let $v = & results . query_data [ vx_i ] ; proof { lemma_any ( results . query_data @ , vx_i as int ) ; } vx_i += 1 ; $body } proof { lemma_more ( results . query_data @ , vx_i as int ) ; } }
//@rw for $v:id in results . query_data $inv $body ==> { let mut vx_k : usize = 0 ; while vx_k < results . query_data . len ( ) $inv { let $v = & results . query_data [ vx_k ] ; proof { lemma_cut ( results . query_data @ , results . total_time , percent_above , vx_k as int ) ; lemma_line ( results . query_data @ [ vx_k as int ] , results . total_time , c ) ; } vx_k += 1 ; $body } }
//@ret r
//@spec
    ensures
        r is Ok && !opt.json ==> final(vx_out)@.len() > old(vx_out)@.len() && final(vx_out)@.take(old(vx_out)@.len() as int) == old(vx_out)@ && (final(vx_out)@[old(vx_out)@.len() as int] matches Out::Tab(t) && summary_table(analysis_of(opt.file_prefix), opt.percent_above, t)), //# C25
        r is Ok && !opt.json ==> final(vx_out)@[old(vx_out)@.len() as int + 1] == Out::Text("Total cpu time: "@ + debugd(analysis_of(opt.file_prefix).total_time@ as int) + "\n"@), //# C14
        r is Ok && !opt.json ==> final(vx_out)@.last() == Out::Tab(sizes(analysis_of(opt.file_prefix).artifact_sizes@, analysis_of(opt.file_prefix).artifact_sizes@.len() as int)), //# C16
        r is Ok && !opt.json ==> exists|o: Seq<Out>| #[trigger] reported(analysis_of(opt.file_prefix), opt.percent_above, o) && final(vx_out)@ == old(vx_out)@ + o, //# C25
        !opt.json ==> final(d).files == old(d).files, //# C25
        opt.json ==> final(vx_out)@ == old(vx_out)@ && others_same(old(d).files, final(d).files, opt.file_prefix.with_ext("json"@)), //# C25
        r is Ok && opt.json ==> final(d).files == old(d).files.insert(opt.file_prefix.with_ext("json"@), json_text(&analysis_of(opt.file_prefix))), //# C17
//@start
    broadcast use {axiom_fadd, axiom_fmul};
//@loop 0
    invariant
        0 <= vx_i <= results.query_data@.len(), 
        has_cache_hits == any_hits(results.query_data@, vx_i as int), has_blocked_time == any_blocked(results.query_data@, vx_i as int), //# C25
        has_incremental_load_time == any_load(results.query_data@, vx_i as int), has_incremental_hashing_time == any_hash(results.query_data@, vx_i as int), //# C25
    ensures
        vx_i == results.query_data@.len() || (has_cache_hits && has_blocked_time && has_incremental_load_time && has_incremental_hashing_time), //# C25
    decreases results.query_data@.len() - vx_i
//@loop 1
    invariant_except_break
        cut(q, total0, percent_above, 0) == cut(q, total0, percent_above, vx_k as int), //# C25
        percent_total_time == account(q, total0, vx_k as int), //# C25
        table@ == rows(q, total0, c, vx_k as int), //# C25
    invariant
        0 <= vx_k <= results.query_data@.len(), results.query_data@ == q, results.total_time == total0, percent_above == opt.percent_above, total_time == float(total0@ as int),
        has_cache_hits == c.hits, has_blocked_time == c.blocked, has_incremental_load_time == c.load, has_incremental_hashing_time == c.hash,
    ensures
        table@ == rows(q, total0, c, cut(q, total0, percent_above, 0)), //# C25
        percent_total_time == account(q, total0, cut(q, total0, percent_above, 0)), //# C25
    decreases results.query_data@.len() - vx_k
//@before let columns = $$x ;
    let ghost q = results.query_data@;
    let ghost total0 = results.total_time;
    let ghost c = cols(q, q.len() as int);
//@before table . add_row ( Row :: new ( filter_cells ( columns ) ) ) ;
    proof { assert(pairs(columns@) =~= header(c)); } //# C25
//@loopbind 2 it
//@loop 2
    invariant
        it.seq() == sz,
        table@ == sizes(sz, it.index@ as int), //# C16
//@tail vx_ret
    proof {
        if vx_ret is Ok && !opt.json {
            let r = analysis_of(opt.file_prefix);
            assert(reported(r, opt.percent_above, report(r, q, opt.percent_above)));
            assert(vx_out@ =~= old(vx_out)@ + report(r, q, opt.percent_above));
        }
    }
//@loopend 2
    proof { let a = sz[it.index@ as int]; assert(table@.last() =~= seq![a.label@, dec(a.value as int) + " bytes"@]); } //# C16
//@before for artifact_size in $$x
    let ghost sz = results.artifact_sizes@;
    proof { assert(table@.last() =~= seq!["Item"@, "Artifact Size"@]); assert(table@ =~= sizes(sz, 0)); } //# C16
    proof { assert(sz == analysis_of(opt.file_prefix).artifact_sizes@); }
//@end
/// the table of artifact sizes
pub open spec fn sizes(s: Seq<ArtifactSize>, n: int) -> Seq<Seq<Seq<char>>>
    decreases n
{ if n <= 0 { seq![seq!["Item"@, "Artifact Size"@]] } else { sizes(s, n - 1).push(seq![s[n - 1].label@, dec(s[n - 1].value as int) + " bytes"@]) } }
} // verus!
