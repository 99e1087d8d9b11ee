// C11 (dispatch), C12, C13: decodeme's and analyzeme's event access
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _fxmap.vx
//@include _addr.vx
//@include _strid.vx
//@include _strtext.vx
//@include _header.vx
//@include _pages.vx
//@include _pagetag.vx
//@include _eventspec.vx
//@include _eventidty.vx
//@include _raw.vx contracts raw
//@include _payload.vx
//@include _strread.vx contracts strread
//@include _split.vx contracts split
verus! {
//@item decodeme/src/event.rs :: struct Event
//@end
} // verus!
//@include _parse.vx contracts eventid
fn main() {}
//@grw std :: mem :: size_of :: < RawEvent > ( ) ==> 32usize
//@grw mem :: size_of :: < RawEvent > ( ) ==> 32usize
//@grw measureme :: split_streams ==> split_streams
//@grw Option < & Path > ==> Option < & Path >
//@grw . unwrap_or ( Path :: new ( $$x ) ) ==> . unwrap_or ( Path :: new ( $x ) )
//@grw $x:place . ok_or ( $$m ) ? ==> vx_ok_or ( $x ) ?
//@grw dyn file_formats :: EventDecoder ==> dyn FileDecoder
//@grw dyn EventDecoder ==> dyn FileDecoder
//@grw file_formats :: v8 :: EventDecoder ==> OldEventDecoder
//@grw file_formats :: v9 :: EventDecoder ==> EventDecoder
//@grw file_formats :: current :: EventDecoder ==> EventDecoder
//@grw file_formats :: v8 :: FILE_FORMAT ==> V8_FILE_FORMAT
//@grw file_formats :: v9 :: FILE_FORMAT ==> V9_FILE_FORMAT
//@grw file_formats :: current :: FILE_FORMAT ==> V9_FILE_FORMAT
verus! {
pub fn vx_ok_or<T>(o: Option<T>) -> (r: Result<T, VxError>)
    ensures o matches Some(t) ==> r == Ok::<T, VxError>(t), o is None ==> r is Err
{ match o { Some(t) => Ok(t), None => Err(vx_error(0u8)) } }

// ---- metadata ------------------------------------------------------------------------------------------------------
//@item decodeme/src/lib.rs :: struct Metadata
//@end
pub struct MetaV { pub start: int, pub pid: u32, pub cmd: Seq<char> }
pub open spec fn meta_v(m: Metadata) -> MetaV { MetaV { start: m.start_time@, pid: m.process_id, cmd: m.cmd@ } }
impl Clone for Metadata {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Metadata) ensures r == *self { unimplemented!() }
}
/// what serde_json reads from a metadata text
pub uninterp spec fn json_meta(t: Seq<char>) -> Option<MetaV>;
#[verifier::external_body]
pub fn vx_metadata(t: &Cow<'_, str>) -> (r: Result<Metadata, VxError>)
    ensures r is Ok == json_meta(t@) is Some, r matches Ok(m) ==> json_meta(t@) == Some(meta_v(m))
{ unimplemented!() }

/// a JSON number being read
#[verifier::external_body]
pub struct VxNumber { x: u8 }
impl VxNumber {
    pub uninterp spec fn value(&self) -> Option<u64>;
    /// u64::deserialize
    #[verifier::external_body] pub fn vx_u64(self) -> (r: Result<u64, VxError>) ensures r is Ok == self.value() is Some, r matches Ok(n) ==> self.value() == Some(n) { unimplemented!() }
}
//@item decodeme/src/lib.rs :: fn system_time_from_nanos
//@generics
//@where -
//@rwsig deserializer : D ==> deserializer : VxNumber
//@retty Result<SystemTime, VxError>
//@rw u64 :: deserialize ( $$x ) ==> ( $x ) . vx_u64 ( )
//@rw UNIX_EPOCH ==> vx_unix_epoch ( )
//@rw . expect ( $m ) ==> . unwrap ( )
//@ret r
//@spec
    // the metadata counts nanoseconds from the epoch
    ensures r is Ok == deserializer.value() is Some, r matches Ok(t) ==> deserializer.value() == Some(t@ as u64) && t@ >= 0 && t@ <= u64::MAX, //# C07, C12, C13
//@end
} // verus!
//@include _readhdr.vx
verus! {
//@item decodeme/src/lib.rs :: const RAW_EVENT_SIZE
//@end
//@item decodeme/src/lib.rs :: struct EventDecoder
//@end

/// the text of a string, if it can be decoded
pub open spec fn can_decode(d: Seq<u8>, ix: Map<StringId, Addr>, id: StringId) -> bool { exists|f: nat| text_id(d, ix, id, f) is Some }
pub open spec fn string_text(d: Seq<u8>, ix: Map<StringId, Addr>, id: StringId) -> Seq<u8> {
    text_id(d, ix, id, choose|f: nat| text_id(d, ix, id, f) is Some).unwrap()
}
pub open spec fn dec_fuel(t: StringTable, id: StringId) -> nat { choose|f: nat| text_id(t.string_data@, t.index@, id, f) is Some }
/// a decoded event, texts as UTF-8
pub struct FullV { pub kind: Seq<u8>, pub label: Seq<u8>, pub args: Seq<Seq<u8>>, pub payload: EventPayload, pub thread: u32 }
pub open spec fn full_v(e: Event<'_>) -> FullV {
    FullV { kind: encode_utf8(e.event_kind@), label: encode_utf8(e.label@), args: texts(e.additional_data@), payload: e.payload, thread: e.thread_id }
}
pub open spec fn parse_error() -> Seq<u8> { encode_utf8("<parse error>"@) }
pub open spec fn label_or_error(b: Seq<u8>) -> Seq<u8> { match event_label(b) { Some(l) => l, None => parse_error() } }

/// number of 32-byte records after the stream header
pub open spec fn rec_count(ev: Seq<u8>) -> int { (ev.len() - 8) / 32 }
pub open spec fn whole_records(ev: Seq<u8>) -> bool { ev.len() >= 8 && (ev.len() - 8) % 32 == 0 }
/// the i-th record
pub open spec fn record(ev: Seq<u8>, i: int) -> RawEvent { raw_at(ev.subrange(8 + 32 * i, 40 + 32 * i)) }
pub open spec fn light_of(ev: Seq<u8>, t0: int, i: int) -> LightweightEvent {
    LightweightEvent { event_index: i as usize, payload: pl_decoded(record(ev, i), t0), thread_id: record(ev, i).thread_id }
}
pub open spec fn full_of(ev: Seq<u8>, d: Seq<u8>, ix: Map<StringId, Addr>, t0: int, i: int) -> FullV {
    let e = record(ev, i);
    let id = string_text(d, ix, e.event_id.0);
    FullV { kind: string_text(d, ix, e.event_kind), label: label_or_error(id), args: event_args(id), payload: pl_decoded(e, t0), thread: e.thread_id }
}
pub open spec fn full_ok(ev: Seq<u8>, d: Seq<u8>, ix: Map<StringId, Addr>, i: int) -> bool {
    can_decode(d, ix, record(ev, i).event_id.0) && can_decode(d, ix, record(ev, i).event_kind)
}
/// streams that open without a panic: whole index entries and a decodable metadata string
pub open spec fn streams_ok(sd: Seq<u8>, id: Seq<u8>, ev: Seq<u8>) -> bool {
    header_ok(ev, FILE_MAGIC_EVENT_STREAM@) && header_ok(id, FILE_MAGIC_STRINGTABLE_INDEX@) ==>
        id.len() % 16 == 8 && (header_ok(sd, FILE_MAGIC_STRINGTABLE_DATA@) ==> can_decode(sd, index_map(id.subrange(8, id.len() as int)), StringId(METADATA_STRING_ID)))
}
pub open spec fn streams_open(sd: Seq<u8>, id: Seq<u8>, ev: Seq<u8>) -> bool {
    header_ok(ev, FILE_MAGIC_EVENT_STREAM@) && header_ok(sd, FILE_MAGIC_STRINGTABLE_DATA@) && header_ok(id, FILE_MAGIC_STRINGTABLE_INDEX@)
}
/// the metadata string is valid
pub open spec fn meta_ok(sd: Seq<u8>, id: Seq<u8>) -> bool {
    forall|t: Seq<char>| #[trigger] encode_utf8(t) == string_text(sd, index_map(id.subrange(8, id.len() as int)), StringId(METADATA_STRING_ID)) ==> json_meta(t) is Some
}
pub open spec fn file_meta_ok(file: Seq<u8>) -> bool { let b = file.subrange(8, file.len() as int); meta_ok(stream(b, 1), stream(b, 2)) }
pub open spec fn file_streams_ok(file: Seq<u8>) -> bool {
    let b = file.subrange(8, file.len() as int);
    pages(b, u32::MAX as nat) && (occurs(b, 0) && occurs(b, 1) && occurs(b, 2) ==> streams_ok(stream(b, 1), stream(b, 2), stream(b, 0)))
}
pub open spec fn file_opens(file: Seq<u8>) -> bool {
    let b = file.subrange(8, file.len() as int);
    occurs(b, 0) && occurs(b, 1) && occurs(b, 2) && streams_open(stream(b, 1), stream(b, 2), stream(b, 0))
}
impl EventDecoder {
    pub open spec fn holds(&self, sd: Seq<u8>, id: Seq<u8>, ev: Seq<u8>) -> bool {
        self.event_data@ == ev && self.stringtable.string_data@ == sd && self.stringtable.index@ == index_map(id.subrange(8, id.len() as int))
    }
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn from_separate_buffers
//@rw $t:id . get_metadata ( ) . to_string ( ) ==> { let vx_m = $t . get_metadata ( ) ; vx_m . to_string ( Ghost ( dec_fuel ( * vx_m . table , vx_m . id ) ) ) }
//@rw serde_json :: from_str ( & $m:id ) ==> vx_metadata ( & $m )
//@ret r
//@spec
    requires streams_ok(string_data@, index_data@, event_data@),
    ensures
        r is Ok ==> streams_open(string_data@, index_data@, event_data@), //# C11
        r matches Ok(d) ==> d.holds(string_data@, index_data@, event_data@), //# C11, C12
        r matches Ok(d) ==> exists|t: Seq<char>| #[trigger] encode_utf8(t) == string_text(string_data@, index_map(index_data@.subrange(8, index_data@.len() as int)), StringId(METADATA_STRING_ID))
            && json_meta(t) == Some(meta_v(d.metadata)), //# C12, C13
        streams_open(string_data@, index_data@, event_data@) && meta_ok(string_data@, index_data@) ==> r is Ok, //# C11
//@end
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn new
//@ret r
//@spec
    requires header_ok(entire_file_data@, FILE_MAGIC_TOP_LEVEL@) ==> file_streams_ok(entire_file_data@),
    ensures
        r is Ok ==> header_ok(entire_file_data@, FILE_MAGIC_TOP_LEVEL@) && file_opens(entire_file_data@), //# C11
        header_ok(entire_file_data@, FILE_MAGIC_TOP_LEVEL@) && file_opens(entire_file_data@) && file_meta_ok(entire_file_data@) ==> r is Ok, //# C11
        r matches Ok(d) ==> ({ let b = entire_file_data@.subrange(8, entire_file_data@.len() as int); d.holds(stream(b, 1), stream(b, 2), stream(b, 0)) }), //# C11, C12
//@end
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn num_events
//@ret r
//@spec
    requires whole_records(self.event_data@),
    ensures r == rec_count(self.event_data@), //# C12
//@start
    proof { axiom_vec_len(&self.event_data); }
//@end
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn metadata
//@ret r
//@spec
    ensures r == self.metadata, //# C12, C13
//@end
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn decode_full_event
//@rw $t:id . get ( $$i ) . to_string ( ) ==> { let vx_s = $t . get ( $i ) ; vx_s . to_string ( Ghost ( dec_fuel ( * vx_s . table , vx_s . id ) ) ) }
//@ret r
//@spec
    requires
        whole_records(self.event_data@), event_index < rec_count(self.event_data@),
        full_ok(self.event_data@, self.stringtable.string_data@, self.stringtable.index@, event_index as int),
    ensures full_v(r) == full_of(self.event_data@, self.stringtable.string_data@, self.stringtable.index@, self.metadata.start_time@, event_index as int), //# C12
//@start
    proof { axiom_vec_len(&self.event_data); }
//@end
//@item decodeme/src/lib.rs :: impl EventDecoder :: fn decode_lightweight_event
//@ret r
//@spec
    requires whole_records(self.event_data@), event_index < rec_count(self.event_data@),
    ensures r == light_of(self.event_data@, self.metadata.start_time@, event_index as int), //# C12
//@start
    proof { axiom_vec_len(&self.event_data); }
//@end
}
//@item decodeme/src/lib.rs :: fn event_index_to_addr
//@ret r
//@spec
    requires event_index <= 0x07ff_ffff_ffff_ffff,
    ensures r == 8 + 32 * event_index, //# C12
//@end
} // verus!
verus! {
// ---- analyzeme: decoders of all supported formats behind one interface -----------------------------------------------
/// `file_formats::EventDecoder` with contracts (the signatures are those of the trait)
pub trait FileDecoder {
    /// number of the format
    spec fn format(&self) -> int;
    /// the decoder presents this file
    spec fn presents(&self, file: Seq<u8>) -> bool;
    spec fn wf(&self) -> bool;
    spec fn n(&self) -> int;
    spec fn light(&self, i: int) -> LightweightEvent;
    spec fn can_full(&self, i: int) -> bool;
    spec fn full(&self, i: int) -> FullV;
    spec fn meta(&self) -> MetaV;
    fn num_events(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.n(); //# C12, C13
    fn metadata(&self) -> (r: Metadata)
        ensures meta_v(r) == self.meta(); //# C12, C13
    fn decode_full_event<'a>(&'a self, event_index: usize) -> (r: Event<'a>)
        requires self.wf(), event_index < self.n(), self.can_full(event_index as int),
        ensures full_v(r) == self.full(event_index as int); //# C12, C13
    fn decode_lightweight_event<'a>(&'a self, event_index: usize) -> (r: LightweightEvent)
        requires self.wf(), event_index < self.n(),
        ensures r == self.light(event_index as int), r.event_index == event_index; //# C12, C13
}

impl FileDecoder for EventDecoder {
    open spec fn format(&self) -> int { 9 }
    open spec fn presents(&self, file: Seq<u8>) -> bool {
        let b = file.subrange(8, file.len() as int);
        file_opens(file) && self.holds(stream(b, 1), stream(b, 2), stream(b, 0))
    }
    open spec fn wf(&self) -> bool { whole_records(self.event_data@) }
    open spec fn n(&self) -> int { rec_count(self.event_data@) }
    open spec fn light(&self, i: int) -> LightweightEvent { light_of(self.event_data@, self.metadata.start_time@, i) }
    open spec fn can_full(&self, i: int) -> bool { full_ok(self.event_data@, self.stringtable.string_data@, self.stringtable.index@, i) }
    open spec fn full(&self, i: int) -> FullV { full_of(self.event_data@, self.stringtable.string_data@, self.stringtable.index@, self.metadata.start_time@, i) }
    open spec fn meta(&self) -> MetaV { meta_v(self.metadata) }
//@item analyzeme/src/file_formats/v9.rs :: impl super::EventDecoder for EventDecoder :: fn num_events
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v9.rs :: impl super::EventDecoder for EventDecoder :: fn metadata
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v9.rs :: impl super::EventDecoder for EventDecoder :: fn decode_full_event
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v9.rs :: impl super::EventDecoder for EventDecoder :: fn decode_lightweight_event
//@nopub
//@ret r
//@end
}

// ---- the version 8 decoder (crate decodeme 10): external; only its types are given -----------------------------------
#[derive(Clone, Copy)]
pub enum OldTimestamp { Interval { start: SystemTime, end: SystemTime }, Instant(SystemTime) }
#[derive(Clone, Copy)]
pub enum OldEventPayload { Timestamp(OldTimestamp), Integer(u64) }
pub struct OldLightweightEvent { pub event_index: usize, pub payload: OldEventPayload, pub thread_id: u32 }
pub struct OldEvent<'a> { pub event_kind: Cow<'a, str>, pub label: Cow<'a, str>, pub additional_data: Vec<Cow<'a, str>>, pub payload: OldEventPayload, pub thread_id: u32 }
pub struct OldMetadata { pub start_time: SystemTime, pub process_id: u32, pub cmd: String }
#[verifier::external_body]
pub struct OldEventDecoder { x: u8 }
pub struct OldFullV { pub kind: Seq<u8>, pub label: Seq<u8>, pub args: Seq<Seq<u8>>, pub payload: OldEventPayload, pub thread: u32 }
pub open spec fn old_full_v(e: OldEvent<'_>) -> OldFullV {
    OldFullV { kind: encode_utf8(e.event_kind@), label: encode_utf8(e.label@), args: texts(e.additional_data@), payload: e.payload, thread: e.thread_id }
}
pub open spec fn old_meta_v(m: OldMetadata) -> MetaV { MetaV { start: m.start_time@, pid: m.process_id, cmd: m.cmd@ } }
impl OldEventDecoder {
    pub uninterp spec fn old_presents(&self, file: Seq<u8>) -> bool;
    pub uninterp spec fn old_wf(&self) -> bool;
    pub uninterp spec fn old_n(&self) -> int;
    pub uninterp spec fn old_light(&self, i: int) -> OldLightweightEvent;
    pub uninterp spec fn old_can_full(&self, i: int) -> bool;
    pub uninterp spec fn old_full(&self, i: int) -> OldFullV;
    pub uninterp spec fn old_meta(&self) -> MetaV;
    #[verifier::external_body]
    pub fn new(data: Vec<u8>, p: Option<&Path>) -> (r: Result<OldEventDecoder, VxError>)
        requires header_v(data@) == 8,
        ensures r is Ok == old_opens(data@), r matches Ok(d) ==> d.old_presents(data@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn num_events(&self) -> (r: usize) requires self.old_wf(), ensures r == self.old_n() { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: OldMetadata) ensures old_meta_v(r) == self.old_meta() { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_full_event<'a>(&'a self, event_index: usize) -> (r: OldEvent<'a>)
        requires self.old_wf(), event_index < self.old_n(), self.old_can_full(event_index as int),
        ensures old_full_v(r) == self.old_full(event_index as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_lightweight_event<'a>(&'a self, event_index: usize) -> (r: OldLightweightEvent)
        requires self.old_wf(), event_index < self.old_n(),
        ensures r == self.old_light(event_index as int), r.event_index == event_index { unimplemented!() }
}
/// files the version 8 decoder opens
pub uninterp spec fn old_opens(file: Seq<u8>) -> bool;
/// version number of a file
pub open spec fn header_v(b: Seq<u8>) -> int { le32(b.subrange(4, 8)) as int }
/// the meaning of an old payload
pub open spec fn old_ts(t: OldTimestamp) -> Timestamp {
    match t { OldTimestamp::Interval { start, end } => Timestamp::Interval { start: start, end: end }, OldTimestamp::Instant(t) => Timestamp::Instant(t) }
}
pub open spec fn old_payload(p: OldEventPayload) -> EventPayload {
    match p { OldEventPayload::Timestamp(t) => EventPayload::Timestamp(old_ts(t)), OldEventPayload::Integer(n) => EventPayload::Integer(n) }
}
pub open spec fn old_light_v(e: OldLightweightEvent) -> LightweightEvent {
    LightweightEvent { event_index: e.event_index, payload: old_payload(e.payload), thread_id: e.thread_id }
}
pub open spec fn old_full_conv(e: OldFullV) -> FullV { FullV { kind: e.kind, label: e.label, args: e.args, payload: old_payload(e.payload), thread: e.thread } }

//@item analyzeme/src/file_formats/v8.rs :: fn v8_metadata_as_current
//@ret r
//@spec
    ensures meta_v(r) == old_meta_v(*old), //# C13
//@end
//@item analyzeme/src/file_formats/v8.rs :: fn v8_timestamp_as_current
//@ret r
//@spec
    ensures r == old_ts(old), //# C13
//@end
//@item analyzeme/src/file_formats/v8.rs :: fn v8_event_payload_as_current
//@ret r
//@spec
    ensures r == old_payload(old), //# C13
//@end
//@item analyzeme/src/file_formats/v8.rs :: fn v8_lightweightevent_as_current
//@ret r
//@spec
    ensures r == old_light_v(old), //# C13
//@end
impl FileDecoder for OldEventDecoder {
    open spec fn format(&self) -> int { 8 }
    open spec fn presents(&self, file: Seq<u8>) -> bool { self.old_presents(file) }
    open spec fn wf(&self) -> bool { self.old_wf() }
    open spec fn n(&self) -> int { self.old_n() }
    open spec fn light(&self, i: int) -> LightweightEvent { old_light_v(self.old_light(i)) }
    open spec fn can_full(&self, i: int) -> bool { self.old_can_full(i) }
    open spec fn full(&self, i: int) -> FullV { old_full_conv(self.old_full(i)) }
    open spec fn meta(&self) -> MetaV { self.old_meta() }
//@item analyzeme/src/file_formats/v8.rs :: impl super::EventDecoder for EventDecoder :: fn num_events
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v8.rs :: impl super::EventDecoder for EventDecoder :: fn metadata
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v8.rs :: impl super::EventDecoder for EventDecoder :: fn decode_full_event
//@nopub
//@ret r
//@end
//@item analyzeme/src/file_formats/v8.rs :: impl super::EventDecoder for EventDecoder :: fn decode_lightweight_event
//@nopub
//@ret r
//@end
}
//@item analyzeme/src/file_formats/v8.rs :: const FILE_FORMAT
//@rw FILE_FORMAT ==> V8_FILE_FORMAT
//@rw measureme_10 :: file_header :: CURRENT_FILE_FORMAT_VERSION ==> 8
//@end
//@item analyzeme/src/file_formats/v9.rs :: const FILE_FORMAT
//@rw FILE_FORMAT ==> V9_FILE_FORMAT
//@rw decodeme :: CURRENT_FILE_FORMAT_VERSION ==> CURRENT_FILE_FORMAT_VERSION
//@end

// ---- ProfilingData and its iterator ----------------------------------------------------------------------------------
/// std::cell::OnceCell; the only writer of the (private) cell is the closure of `ProfilingData::metadata`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OnceCell<T> { t: core::marker::PhantomData<T> }
impl<T> OnceCell<T> {
    #[verifier::external_body] pub fn new() -> OnceCell<T> { unimplemented!() }
    #[verifier::external_body] pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> (r: &T)
        requires f.requires(()),
        ensures f.ensures((), *r)
    { unimplemented!() }
}
//@item analyzeme/src/profiling_data.rs :: struct ProfilingData
//@end
//@item analyzeme/src/profiling_data.rs :: struct ProfilerEventIterator
//@end
/// the events taken from the front, then those taken from the back, last taken first
#[verifier::external_body]
pub fn vx_join<'a>(f: Vec<Event<'a>>, b: Vec<Event<'a>>) -> (r: Vec<Event<'a>>) ensures r@ == f@ + b@.reverse() { unimplemented!() }
pub open spec fn fulls(p: &ProfilingData, f: Seq<Event<'_>>, b: Seq<Event<'_>>) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> full_v(#[trigger] f[i]) == p.event_decoder.full(i)
    &&& forall|i: int| 0 <= i < b.len() ==> full_v(#[trigger] b[i]) == p.event_decoder.full(p.n() - 1 - i)
}
impl ProfilingData {
    pub open spec fn wf(&self) -> bool { self.event_decoder.wf() }
    pub open spec fn n(&self) -> int { self.event_decoder.n() }
    pub open spec fn light(&self, i: int) -> LightweightEvent { self.event_decoder.light(i) }
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn from_paged_buffer
//@props C11
//@ret r
//@spec
    requires header_ok(data@, FILE_MAGIC_TOP_LEVEL@) ==> file_streams_ok(data@),
    ensures
        r is Ok ==> data@.len() >= 8 && data@.subrange(0, 4) == FILE_MAGIC_TOP_LEVEL@ && (header_v(data@) == 8 || header_v(data@) == 9), //# C11
        r matches Ok(p) ==> p.event_decoder.format() == header_v(data@), //# C11
        r matches Ok(p) ==> p.event_decoder.presents(data@), //# C11, C12, C13
        header_ok(data@, FILE_MAGIC_TOP_LEVEL@) && file_opens(data@) && file_meta_ok(data@) ==> r is Ok, //# C11
        data@.len() >= 8 && data@.subrange(0, 4) == FILE_MAGIC_TOP_LEVEL@ && header_v(data@) == 8 && old_opens(data@) ==> r is Ok, //# C11
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn metadata
//@rw get_or_init ( || $$e ) ==> get_or_init ( || -> ( vx_m : Metadata ) ensures meta_v ( vx_m ) == self . event_decoder . meta ( ) , { $e } )
//@ret r
//@spec
    ensures meta_v(*r) == self.event_decoder.meta(), //# C12, C13
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn iter
//@ret r
//@spec
    requires self.wf(),
    ensures it_wf(r), r.data == self, r.forward_event_idx == 0, r.backward_event_idx == self.n(), //# C12
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn num_events
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.n(), //# C12, C13
//@end
    pub open spec fn can_full_all(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> #[trigger] self.event_decoder.can_full(i) }
    // the mapped iterator, taken from both ends in any order: what is left is always between the two ends
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn iter_full
//@retty Vec<Event<'a>>
//@rw self . iter ( ) . map ( move | $e:id | $$b ) ==> { let mut vx_it = self . iter ( ) ; let mut vx_front : Vec < Event < 'a > > = Vec :: new ( ) ; let mut vx_back : Vec < Event < 'a > > = Vec :: new ( ) ;  loop invariant_except_break it_wf ( vx_it ) , vx_it . data == self , vx_front @ . len ( ) == vx_it . forward_event_idx , vx_back @ . len ( ) == self . n ( ) - vx_it . backward_event_idx , self . wf ( ) , self . can_full_all ( ) , fulls ( self , vx_front @ , vx_back @ ) ,  ensures vx_front @ . len ( ) + vx_back @ . len ( ) == self . n ( ) , fulls ( self , vx_front @ , vx_back @ ) , decreases vx_it . backward_event_idx - vx_it . forward_event_idx  { if vx_nondet ( ) { match vx_it . next ( ) { Some ( $e ) => { let vx_x = $b ; vx_front . push ( vx_x ) ; } None => { break ; } } } else { match vx_it . next_back ( ) { Some ( $e ) => { let vx_x = $b ; vx_back . push ( vx_x ) ; } None => { break ; } } } }  vx_join ( vx_front , vx_back ) }
//@ret r
//@spec
    requires self.wf(), self.can_full_all(),
    ensures r@.len() == self.n(), //# C12, C13
        forall|i: int| 0 <= i < self.n() ==> full_v(#[trigger] r@[i]) == self.event_decoder.full(i), //# C12, C13
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn to_full_event
//@ret r
//@spec
    requires self.wf(), light_weight_event.event_index < self.n(), self.event_decoder.can_full(light_weight_event.event_index as int),
    ensures full_v(r) == self.event_decoder.full(light_weight_event.event_index as int), //# C12, C13
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn decode_full_event
//@ret r
//@spec
    requires self.wf(), event_index < self.n(), self.event_decoder.can_full(event_index as int),
    ensures full_v(r) == self.event_decoder.full(event_index as int), //# C12, C13
//@end
//@item analyzeme/src/profiling_data.rs :: impl ProfilingData :: fn decode_lightweight_event
//@ret r
//@spec
    requires self.wf(), event_index < self.n(),
    ensures r == self.light(event_index as int), r.event_index == event_index, //# C12, C13
//@end
}
pub open spec fn it_wf(it: ProfilerEventIterator<'_>) -> bool { it.data.wf() && it.forward_event_idx <= it.backward_event_idx <= it.data.n() }
impl<'a> ProfilerEventIterator<'a> {
//@item analyzeme/src/profiling_data.rs :: impl ProfilerEventIterator :: fn new
//@ret r
//@spec
    requires data.wf(),
    ensures it_wf(r), r.data == data, r.forward_event_idx == 0, r.backward_event_idx == data.n(), //# C12
//@end
//@item analyzeme/src/profiling_data.rs :: impl Iterator for ProfilerEventIterator :: fn next
//@props C12
//@ret r
//@spec
    requires it_wf(*old(self)),
    ensures it_wf(*final(self)), final(self).data == old(self).data,
        final(self).backward_event_idx == old(self).backward_event_idx, //# C12
        old(self).forward_event_idx == old(self).backward_event_idx ==> r is None && final(self).forward_event_idx == old(self).forward_event_idx, //# C12
        old(self).forward_event_idx < old(self).backward_event_idx ==> r == Some(old(self).data.light(old(self).forward_event_idx as int))
            && r->Some_0.event_index == old(self).forward_event_idx
            && final(self).forward_event_idx == old(self).forward_event_idx + 1, //# C12
//@end
//@item analyzeme/src/profiling_data.rs :: impl Iterator for ProfilerEventIterator :: fn size_hint
//@ret r
//@spec
    requires it_wf(*self),
    ensures r.0 == self.backward_event_idx - self.forward_event_idx, r.1 == Some(r.0), //# C12
//@end
//@item analyzeme/src/profiling_data.rs :: impl DoubleEndedIterator for ProfilerEventIterator :: fn next_back
//@props C12
//@retty Option<LightweightEvent>
//@ret r
//@spec
    requires it_wf(*old(self)),
    ensures it_wf(*final(self)), final(self).data == old(self).data,
        final(self).forward_event_idx == old(self).forward_event_idx, //# C12
        old(self).forward_event_idx == old(self).backward_event_idx ==> r is None && final(self).backward_event_idx == old(self).backward_event_idx, //# C12
        old(self).forward_event_idx < old(self).backward_event_idx ==> r == Some(old(self).data.light(old(self).backward_event_idx - 1))
            && r->Some_0.event_index == old(self).backward_event_idx - 1
            && final(self).backward_event_idx == old(self).backward_event_idx - 1, //# C12
//@end
}
pub open spec fn evs(p: ProfilingData, a: int, b: int) -> Seq<LightweightEvent> { Seq::new((b - a) as nat, |i: int| p.light(a + i)) }
/// C12: any history of steps from either end; what came from the front followed by what is left followed by the reverse of
/// what came from the back is the sequence of all events, at every point, and the reported length is what is left.
pub fn any_history(p: &ProfilingData, steps: &Vec<bool>)
    requires p.wf(),
{
    let mut it = p.iter();
    let mut front: Vec<LightweightEvent> = Vec::new();
    let mut back: Vec<LightweightEvent> = Vec::new();
    let mut k: usize = 0;
    let mut ended = false;
    while k < steps.len()
        invariant
            it_wf(it), *it.data == *p, k <= steps@.len(),
            front@ == evs(*p, 0, it.forward_event_idx as int),
            back@.len() == p.n() - it.backward_event_idx,
            forall|i: int| 0 <= i < back@.len() ==> #[trigger] back@[i] == p.light(p.n() - 1 - i),
            ended ==> it.forward_event_idx == it.backward_event_idx,
        decreases steps@.len() - k,
    {
        let h = it.size_hint();
        assert(h.0 == p.n() - front@.len() - back@.len() && h.1 == Some(h.0)); //# C12
        let e = if steps[k] { it.next() } else { it.next_back() };
        assert(e is None <==> h.0 == 0); //# C12
        match e {
            Some(e) => {
                assert(!ended); //# C12
                if steps[k] {
                    assert(e == p.light(front@.len() as int)); //# C12
                    front.push(e);
                    proof { assert(front@ =~= evs(*p, 0, it.forward_event_idx as int)); }
                } else {
                    assert(e == p.light(p.n() - 1 - back@.len())); //# C12
                    back.push(e);
                }
            }
            None => { ended = true; }
        }
        k = k + 1;
    }
    if ended {
        proof {
            assert(front@ + Seq::new(back@.len(), |i: int| back@[back@.len() - 1 - i]) =~= evs(*p, 0, p.n()));
        }
        assert(front@ + Seq::new(back@.len(), |i: int| back@[back@.len() - 1 - i]) == evs(*p, 0, p.n())); //# C12
    }
}
} // verus!
