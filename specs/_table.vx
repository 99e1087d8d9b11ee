// summarize: standard output, prettytable, formatting, files (stand-ins), the analysis results
//@rows
use std::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
use vstd::std_specs::ops::*;
//@grw analyzeme :: AnalysisResults ==> AnalysisResults
//@grw Box < dyn Error + Send + Sync >> ==> VxError >
//@grw std :: process :: exit ( $$x ) ==> vx_never :: < ( ) > ( )
//@grw $x:recv . as_nanos ( ) as f64 ==> vx_f64 ( $x . as_nanos ( ) )
//@grw f64 ==> VxF64
//@grw 100.0 ==> vx_hundred ( )
//@grw 0.0 ==> vx_zero ( )
//@grw vx_print ( $$x ) ==> vx_out . vx_print ( $x )
//@grw $x:recv . printstd ( ) ==> vx_out . vx_table ( & $x )
//@grw & [ ( & str , bool ) ] ==> & Vec < ( & str , bool ) >
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct VxError { x: u8 }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
} // verus!
//@include _f64.vx
verus! {
pub uninterp spec fn fixed3(a: VxF64) -> Seq<char>;
/// `{:.3}`
#[verifier::external_body]
pub fn vx_show_d3(o: &mut String, t: &VxF64) ensures final(o)@ == old(o)@ + fixed3(*t) { unimplemented!() }
pub uninterp spec fn debug2(n: int) -> Seq<char>;
pub uninterp spec fn debugd(n: int) -> Seq<char>;
/// `{:.2?}`; the precision only matters for Duration
pub trait VxDebug2 { spec fn shown2(&self) -> Seq<char>; }
impl VxDebug2 for Duration { open spec fn shown2(&self) -> Seq<char> { debug2(self@ as int) } }
impl VxDebug2 for u64 { open spec fn shown2(&self) -> Seq<char> { dec(*self as int) } }
impl VxDebug2 for i64 { open spec fn shown2(&self) -> Seq<char> { dec_signed(*self as int) } }
#[verifier::external_body]
pub fn vx_show_d2q<T: VxDebug2>(o: &mut String, t: &T) ensures final(o)@ == old(o)@ + t.shown2() { unimplemented!() }
/// `{:?}`
pub trait VxDebug { spec fn debugged(&self) -> Seq<char>; }
impl VxDebug for Duration { open spec fn debugged(&self) -> Seq<char> { debugd(self@ as int) } }
#[verifier::external_body]
pub fn vx_show_q<T: VxDebug>(o: &mut String, t: &T) ensures final(o)@ == old(o)@ + t.debugged() { unimplemented!() }
pub uninterp spec fn signed2(a: VxF64) -> Seq<char>;
/// `{:+.2}`
#[verifier::external_body]
pub fn vx_show_pd2(o: &mut String, t: &VxF64) ensures final(o)@ == old(o)@ + signed2(*t) { unimplemented!() }
pub open spec fn dec_plus(n: int) -> Seq<char> { if n < 0 { dec_signed(n) } else { seq!['+'] + dec(n) } }
/// `{:+}`
#[verifier::external_body]
pub fn vx_show_p(o: &mut String, t: &i64) ensures final(o)@ == old(o)@ + dec_plus(*t as int) { unimplemented!() }

// ---- prettytable
#[verifier::external_body]
pub struct Cell { x: u8 }
impl View for Cell { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Cell {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Cell) ensures r@ == s@ { unimplemented!() }
}
pub open spec fn cell_texts(v: Seq<Cell>) -> Seq<Seq<char>> { v.map_values(|c: Cell| c@) }
#[verifier::external_body]
pub struct Row { x: u8 }
impl View for Row { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Row {
    #[verifier::external_body]
    pub fn new(v: Vec<Cell>) -> (r: Row) ensures r@ == cell_texts(v@) { unimplemented!() }
    /// row![]: the text of each value
    #[verifier::external_body]
    pub fn vx_empty() -> (r: Row) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with<T: VxShow + ?Sized>(self, t: &T) -> (r: Row) ensures r@ == self@.push(t.shown()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Table { x: u8 }
impl View for Table { type V = Seq<Seq<Seq<char>>>; uninterp spec fn view(&self) -> Seq<Seq<Seq<char>>>; }
impl Table {
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r@ == Seq::<Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_row(&mut self, r: Row) ensures final(self)@ == old(self)@.push(r@) { unimplemented!() }
}
/// standard output as the sequence of tables and texts on it
pub enum Out { Tab(Seq<Seq<Seq<char>>>), Text(Seq<char>) }
#[verifier::external_body]
pub struct VxOut { x: u8 }
impl View for VxOut { type V = Seq<Out>; uninterp spec fn view(&self) -> Seq<Out>; }
impl VxOut {
    #[verifier::external_body]
    pub fn vx_table(&mut self, t: &Table) ensures final(self)@ == old(self)@.push(Out::Tab(t@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_print(&mut self, s: &str) ensures final(self)@ == old(self)@.push(Out::Text(s@)) { unimplemented!() }
}

//@item analyzeme/src/analysis.rs :: struct QueryData
//@end
//@item analyzeme/src/analysis.rs :: struct ArtifactSize
//@end
//@item analyzeme/src/analysis.rs :: struct AnalysisResults
//@end
#[verifier::external_body]
pub struct ProfilingData { x: u8 }
/// the analysis of the profile stored under a path
pub uninterp spec fn analysis_of(p: PathBuf) -> AnalysisResults;
impl ProfilingData {
    pub uninterp spec fn analysis(&self) -> AnalysisResults;
    #[verifier::external_body]
    pub fn new(p: &PathBuf) -> (r: Result<ProfilingData, VxError>) ensures r matches Ok(d) ==> d.analysis() == analysis_of(*p) { unimplemented!() }
    #[verifier::external_body] /* contract proved in unit analysis */
    pub fn perform_analysis(&self) -> (r: AnalysisResults) ensures r == self.analysis() { unimplemented!() }
}

// ---- JSON files
pub tracked struct Disk { pub ghost files: Map<PathBuf, Seq<char>> }
pub open spec fn others_same(a: Map<PathBuf, Seq<char>>, b: Map<PathBuf, Seq<char>>, p: PathBuf) -> bool { a.remove(p) == b.remove(p) }
/// what derive(Serialize) and serde_json write
pub uninterp spec fn json_text<T>(t: T) -> Seq<char>;
/// what serde_json and derive(Deserialize) read from the file stored under a path
pub uninterp spec fn stored_results(p: PathBuf) -> AnalysisResults;
impl PathBuf {
    pub uninterp spec fn with_ext(self, e: Seq<char>) -> PathBuf;
    /// Path::extension is Some(e)
    pub uninterp spec fn has_ext(self, e: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf) ensures r == self.with_ext(e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_has_extension(&self, e: &str) -> (r: bool) ensures r == self.has_ext(e@) { unimplemented!() }
    /// Path::ends_with: about the last component
    #[verifier::external_body]
    pub fn ends_with(&self, e: &str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFile { x: u8 }
impl VxFile { pub uninterp spec fn name(&self) -> PathBuf; }
#[verifier::external_body]
pub fn vx_create(p: PathBuf, Tracked(d): Tracked<&mut Disk>) -> (r: Result<VxFile, VxError>)
    ensures
        others_same(old(d).files, final(d).files, p),
        r matches Ok(f) ==> f.name() == p && final(d).files == old(d).files.insert(p, Seq::<char>::empty()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_open(p: &PathBuf) -> (r: Result<VxFile, VxError>) ensures r matches Ok(f) ==> f.name() == *p { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_writer<T>(f: VxFile, x: &T, Tracked(d): Tracked<&mut Disk>) -> (r: Result<(), VxError>)
    ensures
        others_same(old(d).files, final(d).files, f.name()),
        r is Ok ==> final(d).files == old(d).files.insert(f.name(), json_text(*x)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_reader(f: VxFile) -> (r: Result<AnalysisResults, VxError>) ensures r matches Ok(x) ==> x == stored_results(f.name()) { unimplemented!() }
} // verus!
