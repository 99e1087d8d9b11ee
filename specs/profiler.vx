// C23, C24: the profiler
//@include strwrite.vx contracts strwrite
//@include _time.vx
//@include _fmt.vx
//@include _json.vx
//@include _pagetag.vx contracts sink
//@include _eventidty.vx contracts eventid
//@include _raw.vx contracts raw
//@include _rawnew.vx contracts raw
//@include _counter.vx
//@grw self . record_raw_event ( $$x ) ==> self . record_raw_event ( $x , Tracked ( & mut * w ) )
//@grw self . profiler . record_raw_event ( $$x ) ==> self . profiler . record_raw_event ( $x , Tracked ( & mut * w ) )
//@grw std :: mem :: size_of :: < RawEvent > ( ) ==> 32
//@guard TimingGuard { $$f } ==> TimingGuard { $f } ==> vx_drop_guard ( $g , Tracked ( & mut * w ) , Tracked ( & mut * c ) ) ;
//@grw drop ( $$g ) ==> vx_drop_guard ( $g , Tracked ( & mut * w ) , Tracked ( & mut * c ) )
verus! {
/// exactly one event is appended to the event stream, in one atomic write
pub open spec fn recorded(w0: World, w1: World, e: RawEvent) -> bool { wrote_bytes(w0, w1, raw_bytes(e)) && raw_at(raw_bytes(e)) == e && raw_bytes(e).len() == 32 }
pub open spec fn recorded_as(w0: World, w1: World, kind: StringId, id: EventId, tid: u32, p1: int, p2: int) -> bool {
    exists|e: RawEvent| raw_is(e, kind, id, tid, p1, p2) && #[trigger] recorded(w0, w1, e)
}
/// an interval from `start` to some time not before the call
pub open spec fn recorded_interval(w0: World, w1: World, c0: Clock, c1: Clock, kind: StringId, id: EventId, tid: u32, start: int) -> bool {
    exists|e: RawEvent| raw_is(e, kind, id, tid, start, e.p2() as int) && c0.now <= e.p2() <= c1.now && #[trigger] recorded(w0, w1, e)
}
//@item measureme/src/profiler.rs :: struct Profiler
//@end
//@item measureme/src/profiler.rs :: struct DetachedTiming
//@end
//@item measureme/src/profiler.rs :: struct TimingGuard
//@end
pub fn vx_drop_guard(mut g: TimingGuard<'_>, Tracked(w): Tracked<&mut World>, Tracked(c): Tracked<&mut Clock>)
    requires g.profiler.event_sink.id() == old(w).sink, g.start_count <= old(c).now,
    ensures recorded_interval(*old(w), *final(w), *old(c), *final(c), g.event_kind, g.event_id, g.thread_id, g.start_count as int), ticks(*old(c), *final(c)),
{ g.vx_drop(Tracked(w), Tracked(c)) }
impl<'a> TimingGuard<'a> {
//@item measureme/src/profiler.rs :: impl Drop for TimingGuard :: fn drop
//@name vx_drop
//@nopub
//@params Tracked(w): Tracked<&mut World>, Tracked(c): Tracked<&mut Clock>
//@spec
    requires old(self).profiler.event_sink.id() == old(w).sink, old(self).start_count <= old(c).now,
    ensures
        recorded_interval(*old(w), *final(w), *old(c), *final(c), old(self).event_kind, old(self).event_id, old(self).thread_id, old(self).start_count as int), //# C23
        ticks(*old(c), *final(c)),
//@end
//@item measureme/src/profiler.rs :: impl TimingGuard :: fn finish_with_override_event_id
//@rwsig mut self ==> self
//@rw drop ( self ) ; ==> 
//@rw drop ( self ) ==> 
//@rw self ==> vx_self
//@start
    let mut vx_self = self;
//@finish
    /* the guard goes out of scope */
    vx_drop_guard(vx_self, Tracked(&mut *w), Tracked(&mut *c));
//@params Tracked(w): Tracked<&mut World>, Tracked(c): Tracked<&mut Clock>
//@spec
    requires self.profiler.event_sink.id() == old(w).sink, self.start_count <= old(c).now,
    ensures
        recorded_interval(*old(w), *final(w), *old(c), *final(c), self.event_kind, event_id, self.thread_id, self.start_count as int), //# C23
//@end
}
impl Profiler {
//@item measureme/src/profiler.rs :: impl Profiler :: fn record_raw_event
//@nopub
//@params Tracked(w): Tracked<&mut World>
//@rw self . event_sink . write_atomic ( $$n , | $p:id | $body ) ==> self . event_sink . write_atomic ( $n , | $p : & mut [ u8 ] | requires old ( $p )@ . len ( ) == 32 ensures final ( $p )@ == vx_e { $body } , Tracked ( & mut * w ) , Ghost ( vx_e ) )
//@spec
    requires self.event_sink.id() == old(w).sink,
    ensures recorded(*old(w), *final(w), *raw_event), //# C23
//@start
    let ghost vx_e = raw_bytes(*raw_event);
    proof { axiom_raw_bytes(*raw_event); }
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn record_instant_event
//@params Tracked(w): Tracked<&mut World>, Tracked(c): Tracked<&mut Clock>
//@spec
    requires self.event_sink.id() == old(w).sink,
    ensures
        exists|e: RawEvent| raw_is(e, event_kind, event_id, thread_id, e.p1() as int, 0xFFFF_FFFF_FFFF) && old(c).now <= e.p1() <= final(c).now && #[trigger] recorded(*old(w), *final(w), e), //# C23
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn record_integer_event
//@params Tracked(w): Tracked<&mut World>
//@spec
    requires self.event_sink.id() == old(w).sink, value <= MAX_SINGLE_VALUE,
    ensures recorded_as(*old(w), *final(w), event_kind, event_id, thread_id, value as int, 0xFFFF_FFFF_FFFE), //# C23
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn start_recording_interval_event
//@params Tracked(c): Tracked<&mut Clock>
//@ret r
//@spec
    ensures
        r.profiler == self, r.event_kind == event_kind, r.event_id == event_id, r.thread_id == thread_id, //# C23
        old(c).now <= r.start_count <= final(c).now, ticks(*old(c), *final(c)), //# C23
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn start_recording_interval_event_detached
//@params Tracked(c): Tracked<&mut Clock>
//@ret r
//@spec
    ensures
        r.event_kind == event_kind, r.event_id == event_id, r.thread_id == thread_id, //# C23
        old(c).now <= r.start_count <= final(c).now, ticks(*old(c), *final(c)), //# C23
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn finish_recording_interval_event
//@params Tracked(w): Tracked<&mut World>, Tracked(c): Tracked<&mut Clock>
//@spec
    requires self.event_sink.id() == old(w).sink, timing.start_count <= old(c).now,
    ensures recorded_interval(*old(w), *final(w), *old(c), *final(c), timing.event_kind, timing.event_id, timing.thread_id, timing.start_count as int), //# C23
//@end
}
} // verus!
//@grw fs :: create_dir_all ( $$x ) ==> vx_create_dir_all ( $x )
//@grw fs :: File :: create ( $$x ) ==> vx_create_file ( $x )
//@grw path_stem . as_ref ( ) . with_extension ( $$e ) ==> vx_with_extension ( path_stem , $e )
//@grw write_file_header ( & mut file , $$m ) ==> vx_write_file_header ( & mut file , $m )
//@grw write_file_header ( & mut event_sink . as_std_write ( ) , $$m ) ==> write_file_header ( & mut event_sink . as_std_write ( ) , $m , Tracked ( & mut * we ) )
//@grw StringTableBuilder :: new ( $$x , ) ==> vx_new_table ( $x , Tracked ( & mut * w ) , Tracked ( & mut * wi ) )
//@grw StringTableBuilder :: new ( $$x ) ==> vx_new_table ( $x , Tracked ( & mut * w ) , Tracked ( & mut * wi ) )
//@grw $x:place . alloc_metadata ( & * $body ) ==> vx_alloc_text ( & $x , $body , Tracked ( & mut * w ) , Tracked ( & mut * wi ) )
//@grw $x:place . alloc_metadata ( & * $v:id ) ==> vx_alloc_text ( & $x , $v , Tracked ( & mut * w ) , Tracked ( & mut * wi ) )
//@grw $x:place . alloc_metadata ( & $v:id [ .. ] ) ==> vx_alloc_text ( & $x , $v , Tracked ( & mut * w ) , Tracked ( & mut * wi ) )
//@grw std :: time :: SystemTime :: now ( ) . duration_since ( std :: time :: UNIX_EPOCH ) . unwrap ( ) ==> vx_since_epoch ( )
//@grw std :: process :: id ( ) ==> vx_process_id ( )
//@grw std :: env :: args ( ) ==> vx_args ( )
verus! {
//@item measureme/src/file_header.rs :: const FILE_EXTENSION
//@rw & str ==> & 'static str
//@end
/// std::fs and std::path
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct File { x: u8 }
impl View for File { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub fn vx_with_extension(p: &Path, e: &str) -> (r: PathBuf) { unimplemented!() }
impl PathBuf {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures r is Some { unimplemented!() }
}
#[verifier::external_body] pub fn vx_create_dir_all(p: &Path) -> (r: Result<(), VxError>) { unimplemented!() }
#[verifier::external_body] pub fn vx_create_file(p: PathBuf) -> (r: Result<File, VxError>) ensures r matches Ok(f) ==> f@.len() == 0 { unimplemented!() }
/// write_file_header into a file: its contract, with the file as log
#[verifier::external_body] pub fn vx_write_file_header(f: &mut File, m: &[u8; 4]) -> (r: Result<(), VxError>)
    ensures r is Ok && old(f)@.len() == 0 ==> final(f)@.len() == 8 && header_ok(final(f)@, m@),
        r is Ok ==> final(f)@.len() == old(f)@.len() + 8 && final(f)@.subrange(0, old(f)@.len() as int) == old(f)@
        && header_ok(final(f)@.subrange(old(f)@.len() as int, final(f)@.len() as int), m@)
{ unimplemented!() }
/// which stream of the file a page tag names
pub uninterp spec fn stream(t: PageTag) -> int;
#[verifier::external_body] pub struct SerializationSinkBuilder { x: u8 }
impl SerializationSinkBuilder {
    /// the pages must be preceded by the header of the file
    #[verifier::external_body] pub fn new_from_file(file: File) -> (r: Result<SerializationSinkBuilder, VxError>)
        requires file@.len() == 8, header_ok(file@, FILE_MAGIC_TOP_LEVEL@), //# C24, C11
    { unimplemented!() }
    #[verifier::external_body] pub fn new_sink(&self, page_tag: PageTag) -> (r: SerializationSink) ensures r.id() == stream(page_tag) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_since_epoch() -> (r: Duration) { unimplemented!() }
#[verifier::external_body] pub fn vx_process_id() -> (r: u32) { unimplemented!() }
/// the arguments of the program
pub uninterp spec fn program_args() -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vx_args() -> (r: Vec<String>)
    ensures r@.len() == program_args().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == program_args()[i]
{ unimplemented!() }
/// the arguments, each followed by one space
pub open spec fn command_line(a: Seq<Seq<char>>) -> Seq<char>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { command_line(a.drop_last()) + a.last() + " "@ } }
/// no text is longer than isize::MAX - 1
pub axiom fn axiom_text_len(s: Seq<char>) ensures encode_utf8(s).len() < 0x7fff_ffff_ffff_fffe;
pub open spec fn metadata_written(w0: World, w1: World, i0: World, i1: World, text: Seq<char>) -> bool {
    wrote_bytes(w0, w1, entry_bytes(seq![Piece::Value(encode_utf8(text))])) && indexed(i0, i1, StringId(METADATA_STRING_ID), Addr(w1.at_lock.len() as u64))
}
pub fn vx_new_table(d: Arc<SerializationSink>, i: Arc<SerializationSink>, Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>) -> (r: Result<StringTableBuilder, VxError>)
    requires d.id() == old(w).sink, i.id() == old(wi).sink, old(w).excl, old(wi).excl, old(w).log.len() == 0, old(wi).log.len() == 0,
    ensures
        r matches Ok(b) ==> b.data_sink == d && b.index_sink == i && header_ok(final(w).log, FILE_MAGIC_STRINGTABLE_DATA@) && header_ok(final(wi).log, FILE_MAGIC_STRINGTABLE_INDEX@)
            && final(w).sink == old(w).sink && final(wi).sink == old(wi).sink,
{ StringTableBuilder::new(d, i, Tracked(w), Tracked(wi)) }
pub fn vx_alloc_text(t: &StringTableBuilder, s: String, Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>)
    requires t.data_sink.id() == old(w).sink, t.index_sink.id() == old(wi).sink,
    ensures metadata_written(*old(w), *final(w), *old(wi), *final(wi), s@),
{
    proof { lemma_one_value(encode_utf8(s@)); axiom_text_len(s@); }
    t.alloc_metadata(s.as_str(), Tracked(w), Tracked(wi));
}
/// the metadata is a JSON object: `esc` is the body of the string literal `cmd`
pub open spec fn metadata_text(start: int, pid: int, esc: Seq<char>, counter: Seq<char>) -> Seq<char> {
    "{ \"start_time\": "@ + dec(start) + ", \"process_id\": "@ + dec(pid) + ", \"cmd\": \""@ + esc + "\", \"counter\": "@ + counter + " }"@
}
pub open spec fn valid_metadata(text: Seq<char>, cmd: Seq<char>, counter: Counter) -> bool {
    exists|start: int, pid: int, esc: Seq<char>| #![trigger dec(start), dec(pid), json_text(esc)]
        start >= 0 && pid >= 0 && json_text(esc) == Some(cmd) && text == metadata_text(start, pid, esc, counter_json(counter))
}
//@item measureme/src/profiler.rs :: fn push_json_escaped
//@spec
    ensures
        exists|e: Seq<char>| json_text(e) == Some(s@) && final(out)@ == #[trigger] (old(out)@ + e), //# C24
//@start
    let ghost o = out@;
    let ghost mut e: Seq<char> = Seq::empty();
    proof { assert(o + e =~= o); }
//@loopbind 0 it
//@loop 0
    invariant
        it.seq() == s@,
        out@ == o + e,
        json_text(e) == Some(s@.take(it.index@)), //# C24
//@loopstart 0
    let ghost before = out@;
    let ghost cur = s@[it.index@ as int];
    proof {
        reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\u"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t");
    }
//@loopend 0
    proof {
        let p = out@.skip(before.len() as int);
        assert(out@ =~= before + p);
        if (cur as u32) < 0x20 && p.len() == 6 { lemma_escaped_hex(p, cur); }
        lemma_json_one(p, cur);
        lemma_json_concat(e, p);
        assert(o + (e + p) =~= out@);
        e = e + p;
        assert(s@.take(it.index@ + 1) =~= s@.take(it.index@ as int) + seq![cur]);
    }
//@finish
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@end
/// a \u00XX escape
pub proof fn lemma_escaped_hex(p: Seq<char>, c: char)
    requires (c as u32) < 0x20,
        p =~= seq!['\\', 'u', hex_digit(c as int / 4096), hex_digit(c as int / 256 % 16), hex_digit(c as int / 16 % 16), hex_digit(c as int % 16)],
    ensures json_char(p) == (c, 6int),
{
    let d = p.skip(2);
    assert(d =~= seq![hex_digit(c as int / 4096), hex_digit(c as int / 256 % 16), hex_digit(c as int / 16 % 16), hex_digit(c as int % 16)]);
    assert(hex_val(d[0]) == 0);
    assert(hex_val(d[1]) == 0);
    assert(hex_val(d[2]) == c as int / 16 % 16);
    assert(hex_val(d[3]) == c as int % 16);
    assert(hex4(d) == c as int);
}
//@grw self . string_table . map_virtual_to_concrete_string ( $$x ) ==> self . string_table . map_virtual_to_concrete_string ( $x , Tracked ( & mut * wi ) )
//@grw self . string_table . bulk_map_virtual_to_single_concrete_string ( $$x ) ==> self . string_table . bulk_map_virtual_to_single_concrete_string ( $x , Tracked ( & mut * wi ) )
//@grw self . string_table . alloc ( $$x ) ==> self . string_table . alloc ( $x , Tracked ( & mut * w ) )
impl Profiler {
//@item measureme/src/profiler.rs :: impl Profiler :: fn map_virtual_to_concrete_string
//@props C09
//@params Tracked(wi): Tracked<&mut World>
//@spec
    requires self.string_table.index_sink.id() == old(wi).sink, user_virtual(virtual_id.0), concrete(concrete_id.0),
    ensures indexed(*old(wi), *final(wi), virtual_id, Addr((concrete_id.0 - FIRST_REGULAR_STRING_ID) as u64)), //# C09
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn bulk_map_virtual_to_single_concrete_string
//@props C09
//@generics
//@where -
//@rwsig virtual_ids : I ==> virtual_ids : Vec < StringId >
//@params Tracked(wi): Tracked<&mut World>
//@spec
    requires self.string_table.index_sink.id() == old(wi).sink, concrete(concrete_id.0),
        forall|i: int| 0 <= i < virtual_ids@.len() ==> user_virtual(#[trigger] virtual_ids@[i].0),
    ensures bulk_indexed(*old(wi), *final(wi), virtual_ids@, Addr((concrete_id.0 - FIRST_REGULAR_STRING_ID) as u64)), //# C09
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn alloc_string
//@props C08
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@spec
    requires self.string_table.data_sink.id() == old(w).sink, pieces_len(s.pieces()) < 0x7fff_ffff_ffff_ffff,
    ensures
        is_entry(entry_bytes(s.pieces()), s.pieces()), //# C08
        wrote_bytes(*old(w), *final(w), entry_bytes(s.pieces())), //# C08
        r.0 == final(w).at_lock.len() + FIRST_REGULAR_STRING_ID, //# C08, C09
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn new
//@generics
//@rwsig P ==> & Path
//@params Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>, Tracked(we): Tracked<&mut World>
//@rw Self :: with_counter ( $$x , ) ==> Profiler :: with_counter ( $x , Tracked ( & mut * w ) , Tracked ( & mut * wi ) , Tracked ( & mut * we ) )
//@rw Self :: with_counter ( $$x ) ==> Profiler :: with_counter ( $x , Tracked ( & mut * w ) , Tracked ( & mut * wi ) , Tracked ( & mut * we ) )
//@rw crate :: counters :: ==> 
//@ret r
//@spec
    requires
        old(w).excl, old(wi).excl, old(we).excl, old(w).log.len() == 0, old(wi).log.len() == 0, old(we).log.len() == 0,
        old(w).sink == stream(PageTag::StringData), old(wi).sink == stream(PageTag::StringIndex), old(we).sink == stream(PageTag::Events),
    ensures
        r is Ok ==> header_ok(final(we).log, FILE_MAGIC_EVENT_STREAM@) && final(we).log.len() == 8, //# C11, C24
        r matches Ok(p) ==> p.event_sink.id() == stream(PageTag::Events) && p.counter is WallTime, //# C23
        r matches Ok(p) ==> exists|w1: World, i1: World, t: Seq<char>| header_ok(w1.log, FILE_MAGIC_STRINGTABLE_DATA@) && header_ok(i1.log, FILE_MAGIC_STRINGTABLE_INDEX@)
            && #[trigger] metadata_written(w1, *final(w), i1, *final(wi), t) && valid_metadata(t, command_line(program_args()), p.counter), //# C24
//@end
//@item measureme/src/profiler.rs :: impl Profiler :: fn with_counter
//@generics
//@rwsig P ==> & Path
//@params Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>, Tracked(we): Tracked<&mut World>
//@ret r
//@spec
    requires
        old(w).excl, old(wi).excl, old(we).excl, old(w).log.len() == 0, old(wi).log.len() == 0, old(we).log.len() == 0,
        old(w).sink == stream(PageTag::StringData), old(wi).sink == stream(PageTag::StringIndex), old(we).sink == stream(PageTag::Events),
    ensures
        r is Ok ==> header_ok(final(we).log, FILE_MAGIC_EVENT_STREAM@) && final(we).log.len() == 8, //# C11, C24
        r matches Ok(p) ==> p.event_sink.id() == stream(PageTag::Events) && p.counter == counter, //# C23
        r matches Ok(p) ==> exists|w1: World, i1: World, t: Seq<char>| header_ok(w1.log, FILE_MAGIC_STRINGTABLE_DATA@) && header_ok(i1.log, FILE_MAGIC_STRINGTABLE_INDEX@)
            && #[trigger] metadata_written(w1, *final(w), i1, *final(wi), t) && valid_metadata(t, command_line(program_args()), p.counter), //# C24
//@loopbind 0 it
//@loop 0
    invariant
        it.seq().len() == program_args().len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == program_args()[i],
        json_text(args@) == Some(command_line(program_args().take(it.index@ as int))), //# C24
//@loopstart 0
    let ghost before = args@;
//@loopend 0
    proof {
        reveal_strlit(" ");
        let k = it.index@ as int;
        let esc = choose|e: Seq<char>| json_text(e) == Some(program_args()[k]) && args@ =~= #[trigger] (before + e) + seq![' '];
        assert(args@ =~= (before + esc) + seq![' ']);
        lemma_json_concat(before, esc);
        lemma_json_one(seq![' '], ' ');
        lemma_json_concat(before + esc, seq![' ']);
        assert(program_args().take(k + 1).drop_last() =~= program_args().take(k));
        assert(" "@ =~= seq![' ']);
    }
//@start
    proof {
        assert(program_args().take(program_args().len() as int) =~= program_args());
        assert(json_text(Seq::empty()) == Some(Seq::<char>::empty()));
        assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
    }
//@end
}
} // verus!
