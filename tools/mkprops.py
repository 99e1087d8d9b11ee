import json
P=[]
def p(id,title,statement,over,qt,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
SER='measureme/src/serialization.rs'
p('C01','A stream reads back as exactly the bytes written to it, in order',
 'The bytes that a reader extracts for one page tag are exactly the concatenation, in write order, of everything written to the sink of that tag, with nothing lost, duplicated, reordered or altered, whatever mix of buffered writes, bulk writes, io::Write calls, flushes and drops was used. What the other sinks sharing the same file or buffer write never changes it.',
 ['inputs','histories'],'every sequence of write_atomic / write_bytes_atomic / io::Write / flush / drop calls on every sink sharing one backing store, with every length (including 0, the 128-byte switch, MIN/MAX page size and multiples) and every content',
 'Tests write one repeated chunk of a few sizes; they never mix the two write paths, flushes and sizes in one history, and they compare only the chunks that are present (a stream that is too short passes).',
 [SER],[('buffer','bytes written but not yet in a page','SerializationSinkInner::buffer'),('addr','number of bytes ever written to this stream','SerializationSinkInner::addr'),('backing store','sequence of pages','BackingStorage')],
 [('write_page / flush','SerializationSink::write_page, ::flush'),('small and large write paths','SerializationSink::write_atomic, ::write_bytes_atomic'),('flush on drop','Drop for SerializationSink'),('split_streams','split_streams')],
 ['split_streams over the backing store','SerializationSink::into_bytes'])
p('C02','Concurrent writes get the exact address of their own contiguous bytes',
 'Every write returns the offset, in the final stream of its tag, at which its bytes stand contiguously and unmodified, also when any number of threads write to the same sink or to other sinks of the same file at the same time. Successive ranges returned by one sink never overlap and leave no gap, and no interleaving of writers deadlocks.',
 ['schedules','inputs','histories'],'every interleaving of any number of threads writing through shared sinks, every write length on both write paths',
 'The two multi-thread tests run whatever schedules the OS gives, with one payload shape; a lock dropped too early between computing the address and storing the bytes is rarely hit.',
 [SER],[('addr','next address, advanced under the data lock','SerializationSinkInner::addr'),('data lock','protects buffer and addr','SerializationSink::data'),('store lock','protects the shared backing store','SharedState')],
 [('address taken and advanced under the same lock as the copy','SerializationSink::write_atomic, ::write_bytes_atomic'),('lock order data before store','SerializationSink::flush, ::write_page')],
 ['the Addr returned by write_atomic and write_bytes_atomic against the final stream'])
p('C03','The backing store is always a sequence of well-formed pages',
 'Whenever no write is in progress, what has been written to the backing store is a sequence of complete pages: a valid tag byte, a little-endian 32-bit length between 1 and 256 KiB, and exactly that many content bytes. Pages of different sinks never interleave inside one another and no empty or oversized page is ever emitted.',
 ['inputs','histories','schedules','crash_points'],'every history and interleaving of writes, flushes and drops; the state of the store at each instant at which its lock is free',
 'Tests only look at the file after everything is flushed and only through the reader, and with few sizes.',
 [SER],[('backing store','sequence of pages','BackingStorage')],
 [('page header and content written under one lock','SerializationSink::write_page'),('page size limit','write_page assertion and the callers')],
 ['raw bytes of the file / in-memory store between calls'])
p('C04','Splitting a paged file yields each stream exactly, or stops loudly',
 'For every byte sequence that is a concatenation of well-formed pages, the reader returns for each tag that occurs exactly the concatenation of that tag\'s page contents in file order, and no entry for a tag that does not occur. On anything else (unknown tag, zero-length page, truncated page) it stops with a panic rather than returning data.',
 ['inputs'],'every byte sequence',
 'Tests only feed it what the writer of the same version produced; malformed input is never fed.',
 [SER],[('pos','read cursor','split_streams')],[('page walk','split_streams'),('tag conversion','TryFrom<u8> for PageTag')],['split_streams'])
RAW='measureme/src/raw_event.rs'
p('C05','Packed events keep their 48-bit values and never change kind',
 'An interval, instant or integer event built from in-range values reads back with exactly those values and is classified as exactly the kind it was built as. Values that cannot be represented (start after end, interval end above 2^48-3, single value above 2^48-1) are rejected instead of being stored truncated or as another kind.',
 ['inputs'],'every 64-bit start, end, instant and integer value, every string id, event id and thread id',
 'Tests use a few dozen hand-picked values out of 2^96; a wrong shift or mask for particular upper bits, or an off-by-one next to the two reserved markers, survives them.',
 [RAW],[('payload words','96 bits holding two 48-bit values','RawEvent')],[('pack_values','RawEvent::pack_values'),('range checks','RawEvent::new_interval, ::new_instant, ::new_integer'),('markers','is_instant, is_integer')],['RawEvent accessors'])
p('C06','Raw events have one fixed 32-byte little-endian on-disk layout',
 'Serializing an event writes exactly 32 bytes holding kind id, event id, thread id and the three payload words in this order, each little endian, and deserializing any 32 bytes yields the event with exactly those fields, so the two are inverse in both directions. A buffer of any other length is refused.',
 ['inputs'],'every event value and every 32-byte buffer, every wrong buffer length',
 'There is no test of the byte layout; round-trip tests in one process cannot see a layout change that breaks existing files.',
 [RAW,'measureme/src/event_id.rs','measureme/src/stringtable.rs'],[('RawEvent','repr(C) layout','RawEvent')],[('byte copy of the repr(C) struct','RawEvent::serialize, ::deserialize')],['bytes produced by serialize / accepted by deserialize'])
PAY='decodeme/src/event_payload.rs'
p('C07','Decoded events carry the recorded kind, times and containment',
 'A stored event decodes to a payload of the same kind whose integer is the stored value, or whose times are the profile start time plus the stored nanoseconds. Containment, duration, start and end on payloads and on light-weight and full events agree with interval arithmetic on those times, and the light-weight and the full form of one event agree.',
 ['inputs'],'every raw event, every start time for which the sums are representable, every pair of payloads',
 'Only indirect tests with small nanosecond values exist; containment is never tested at equal endpoints, instants or integers.',
 [PAY,'decodeme/src/lightweight_event.rs','decodeme/src/event.rs','decodeme/src/lib.rs'],[],[('payload conversion','EventPayload::from_raw_event, Timestamp::from_raw_event'),('containment','EventPayload::contains'),('accessors','Timestamp::start, end, duration, contains; LightweightEvent::*')],['EventPayload, Timestamp, LightweightEvent public methods'])
ST='measureme/src/stringtable.rs'; DST='decodeme/src/stringtable.rs'
p('C08','Every stored string decodes to exactly the text it was built from',
 'Looking up the id returned for a plain or composite string yields exactly the concatenation of its literal pieces and of the decoded text of the strings it references, for any nesting of references. Decoding into a new value and appending to an existing one give the same text, and an unresolvable reference contributes exactly the text "<unknown>".',
 ['inputs','histories'],'every sequence of string allocations, any UTF-8 content and length, any number and nesting of components, any id value (including id bytes equal to the terminator or reference tag)',
 'Tests use two tables of a few short ASCII strings; ids whose bytes contain 0xFF or 0xFE, long strings and unresolved references are never decoded.',
 [ST,DST],[('string data','encoded strings, each ended by 0xFF','StringTable::string_data'),('index','virtual id to address','StringTable::index')],
 [('encoding','SerializableString impls, StringComponent::serialize, StringTableBuilder::alloc'),('decoding fast path','StringRef::to_string'),('decoding slow path','StringRef::write_to_string'),('reference decoding','decode_string_ref_from_data')],
 ['StringTable::get(id).to_string / write_to_string'])
p('C09','String ids split cleanly into virtual and concrete, and mappings resolve',
 'The virtual, metadata, invalid and concrete id ranges are disjoint, ids and addresses convert back and forth exactly, and user code can map only user-virtual ids, never the metadata id. After a virtual id is mapped it resolves to the string it was last mapped to, bulk mapping equals mapping each id in turn, and an unmapped virtual id and the invalid id resolve to "<unknown>".',
 ['inputs','histories'],'every 64-bit id and address, every sequence of single and bulk mappings',
 'No test maps a virtual id at all; the boundary values of the ranges are not tested.',
 [ST,DST],[('index stream','16-byte little-endian (id, addr) entries','serialize_index_entry'),('index','last entry wins','StringTable::index')],
 [('range constants','StringId::new_virtual, is_virtual, from_addr, to_addr'),('index writing','map_virtual_to_concrete_string, bulk_map_virtual_to_single_concrete_string, alloc_metadata'),('index reading','StringTable::new, deserialize_index_entry, StringRef::get_addr')],['StringTable::get after mapping'])
EV='decodeme/src/event.rs'
p('C10','Event ids parse back into exactly the label and arguments composed',
 'An event id composed of a label and arguments, none empty and none containing control characters other than white space, decodes to exactly that label and those arguments in order. Any other text yields either the longest valid list of leading arguments or, if the label itself is invalid, a parse-error label with no arguments; parsing never panics.',
 ['inputs'],'every UTF-8 text up to any length, every number of arguments',
 'Six short examples; the slicing around separators, empty trailing arguments and multi-byte text are untested.',
 [EV,'measureme/src/event_id.rs'],[('pos','parser cursor','Parser')],[('parser','Event::parse_event_id, Parser::*'),('composition','EventIdBuilder::from_label_and_arg, from_label_and_args')],['EventDecoder::decode_full_event label and additional_data'])
p('C11','Streams and files of the wrong kind or version are refused',
 'A header written for a stream kind is accepted for exactly that kind and the current version and refused with an error (not a panic) for every other magic, version or a buffer that is too short. Opening a profile accepts exactly the two supported top-level versions, decodes each with the decoder of that version and refuses all others with an error.',
 ['inputs'],'every byte sequence as header, every expected kind, every 32-bit version',
 'Four tests with one corrupted byte each; version dispatch is tested only with the two files in the repository.',
 ['measureme/src/file_header.rs','decodeme/src/lib.rs','analyzeme/src/profiling_data.rs'],[],[('header write and check','write_file_header, verify_file_header, read_file_header'),('dispatch','ProfilingData::from_paged_buffer')],['Result of verify_file_header / ProfilingData::from_paged_buffer'])
p('C12','Event iteration visits every event exactly once from either end',
 'Iterating a profile forwards yields all events in stored order, iterating backwards yields the exact reverse, and any interleaving of front and back steps yields each event exactly once and then ends for good. At every point the reported remaining length is the exact number of events left, and event number i is decoded from the i-th 32-byte record after the stream header.',
 ['inputs','histories'],'every number of events and every sequence of next / next_back / size_hint calls',
 'Tests only iterate forwards over a handful of events; mixed iteration and the reported length are untested.',
 ['analyzeme/src/profiling_data.rs','decodeme/src/lib.rs'],[('forward_event_idx, backward_event_idx','remaining half-open range','ProfilerEventIterator')],[('iterator','ProfilerEventIterator::next, next_back, size_hint'),('indexing','EventDecoder::num_events, event_index_to_addr, decode_*')],['ProfilingData::iter, iter_full'])
p('C13','Events of old (v8) files convert without change of meaning',
 'An event read from a version 8 file is presented with the same kind, label, arguments, thread, index, payload kind and payload values that the version 8 decoder produced, in both its light-weight and its full form. Metadata (start time, process id, command line) is carried over unchanged.',
 ['inputs'],'every event and metadata value the old decoder can produce',
 'One compressed sample file is compared; it cannot tell apart fields that happen to be equal in it.',
 ['analyzeme/src/file_formats/v8.rs'],[],[('converters','v8_metadata_as_current, v8_timestamp_as_current, v8_event_payload_as_current, v8_lightweightevent_as_current'),('trait impl','EventDecoder for decodeme_10::EventDecoder')],['ProfilingData over a v8 buffer'])
AN='analyzeme/src/analysis.rs'
p('C14','Self time is duration minus direct children; totals and counts are exact',
 'For every profile whose intervals nest properly per thread, each label\'s self time is the total duration of its intervals minus the durations of their direct children, where the parent of an event is the innermost interval of its thread containing it, and events of other threads never matter. Total time, invocation, cache-hit and cache-miss counts and blocked, load and hashing times per label follow the documented rule of each event kind, and total time is the sum over threads of the span from earliest start to latest end.',
 ['inputs'],'every properly nested multi-thread event sequence, all event kinds, labels repeated at any depth, zero-length and equal-endpoint intervals',
 'Ten hand-made traces with a few events each.',
 [AN],[('stack','open ancestors per thread','PerThreadState::stack'),('query_data','accumulated data per label','perform_analysis')],[('single reverse pass','ProfilingData::perform_analysis')],['AnalysisResults'])
p('C15','Collapsed stacks account for all time exactly once',
 'In the collapsed-stack output each stack\'s number is the time spent in exactly that stack of labels excluding its direct children, and the root entry is the time of all gaps between events. For properly nested profiles the numbers add up to the total span of all threads, instant and integer events contribute nothing, and threads never influence each other\'s stacks.',
 ['inputs'],'every properly nested multi-thread event sequence, any labels',
 'Two hand-made traces.',
 ['analyzeme/src/stack_collapse.rs'],[('stack_id','textual path, kept in step with the stack','PerThreadState'),('counters','time per path','collapse_stacks')],[('reverse pass','collapse_stacks')],['map returned by collapse_stacks'])
p('C16','Artifact sizes are summed per label and listed once per label',
 'The analysis lists each label that has artifact-size events exactly once, with the sum of the values of all its artifact-size events, in label order. Integer events of other kinds and all timed events never contribute.',
 ['inputs'],'every event sequence whose per-label sums fit 64 bits',
 'One test with a handful of values.',
 [AN],[('artifact_sizes','sum per label','perform_analysis')],[('per-label sum','perform_analysis integer branch, ArtifactSize::add_value')],['AnalysisResults::artifact_sizes'])
DF='summarize/src/diff.rs'
p('C17','A profile diff is the exact per-label difference change minus base',
 'The diff contains every label of either summary exactly once, with signed differences change minus base for all times and counts; a label present on one side only appears as its full positive or negative value; relative changes of time and self time are in percent of the base value, infinite for a new label and -100 % for one that is gone. Signed durations subtract and compare as integers of nanoseconds, and results are ordered by magnitude of self-time change, artifact sizes by decreasing change. Either side may be a profile or the JSON file that summarize --json saved for it, with the same diff.',
 ['inputs'],'every pair of summaries with unique labels and durations below 2^64 ns',
 'Only signed-duration subtraction has one test with values 0, 1 and 2; the diff itself has none.',
 [DF],[],[('union of labels','calculate_diff'),('difference','QueryDataDiff::sub, invert_query_data, query_data_as_diff, ArtifactSizeDiff::*'),('signed arithmetic','SignedDuration::as_nanos, from_nanos, sub, cmp')],['DiffResults'])
AG='summarize/src/aggregate.rs'
p('C18','Extreme-value tables hold exactly the k smallest and largest values',
 'After any sequence of insertions the table of smallest (largest) entries holds exactly the k smallest (largest) distinct range starts (ends) seen, or all of them if there are fewer. The count kept with each entry is exactly how many insertions had that value, and with a single insertion its source is kept.',
 ['inputs','histories'],'every positive limit and every sequence of insertions, with any number of duplicates and any order',
 'No test exists.',
 [AG],[('smallest, largest','bounded ordered maps','Extrema')],[('bounded insertion','Extrema::add_range, ExtremaSources::add')],['Extrema::smallest, ::largest'])
p('C19','Aggregation splits a trace into consecutive start/end/instant intervals',
 'For a single-thread properly nested trace, the points used for aggregation are each interval\'s start and end and each instant, each exactly once, in time order, each with the innermost enclosing interval as its parent. The analysed intervals are exactly the gaps between consecutive points, and for each gap the reported minimum and range are those of its durations across all profiles. The report prints, for the smallest and largest durations and the smallest and largest variances, one line per value in increasing order, with the gap (its bounds and innermost enclosing interval) when only one has that value and otherwise the number and share of the gaps that have it.',
 ['inputs'],'every single-thread properly nested trace and every number of profiles with the same sequence of events',
 'No test exists.',
 [AG],[('stack','intervals entered and not yet left','SamplePoints'),('last_sample_point','right end of the next gap','SampleIntervals')],[('point generation','SamplePoints::next_back'),('pairing','SampleIntervals::next_back'),('min/max across profiles','AggregatedSampleIntervals::next_back')],['summarize aggregate output'])
CR='crox/src/main.rs'
p('C20','Collapsed thread ids never merge threads that overlap in time',
 'With thread collapsing on, every thread that has timed events is assigned a collapsed id, ids are consecutive from zero, and two threads get the same id only if one ended strictly before the other started. With collapsing off no thread is renamed.',
 ['inputs'],'every set of threads with any start and end times, any number of ties',
 'No test exists.',
 [CR],[('thread_to_collapsed_thread','mapping','generate_thread_to_collapsed_thread_mapping')],[('greedy assignment by start against earliest end','generate_thread_to_collapsed_thread_mapping')],['tid values in chrome_profiler.json'])
p('C21','Truncation keeps the header, the first event page and all string pages',
 'Truncating a profile of a supported version yields the original header followed by exactly the first event page and every string page, each byte-identical and in the original order, so every string still resolves. Files with another magic or an unsupported version are refused with an error.',
 ['inputs'],'every well-formed paged file and every header',
 'No test exists.',
 ['mmedit/src/main.rs'],[('event_page_emitted','first event page already copied','truncate')],[('page walk','truncate')],['output of mmedit truncate'])
p('C22','mmview prints every event once, with times relative to the earliest start',
 'mmview prints every event of the profile exactly once in stored order, or exactly those of the requested thread. Times are printed in whole microseconds since the earliest event start in the profile, and integer events print their value.',
 ['inputs'],'every profile, every thread filter',
 'No test exists.',
 ['mmview/src/main.rs'],[],[('event loop','main'),('relative time','system_time_to_micros_since, print_event')],['standard output of mmview'])
p('C23','Each recording call stores exactly one event with the values given',
 'Every completed recording call, guard drop, detached finish or finish-with-override stores exactly one event, with the kind, thread and (last given) event id and value it was called with and, for timed events, the start captured when recording began and a time not before it. An unfinished detached timing stores nothing.',
 ['inputs','histories'],'every sequence of profiler calls with any ids and thread ids, assuming a counter that does not run backwards',
 'The integration tests check sequences of one shape and read them back through the same library.',
 ['measureme/src/profiler.rs'],[('event stream','sequence of raw events','Profiler::event_sink')],[('recording','Profiler::record_*, start_recording_*, finish_recording_interval_event'),('guard','Drop for TimingGuard, finish_with_override_event_id')],['events of the written profile'])
p('C24','A written profile can always be opened: its metadata is valid JSON',
 'Whatever command line the profiled program was started with, the metadata recorded in the profile is valid JSON, so the profile can be opened again. The command line read back is exactly the program arguments in order, each followed by one space.',
 ['inputs','configurations'],'every list of UTF-8 program arguments',
 'Tests run with the command line of the test harness only.',
 ['measureme/src/profiler.rs','decodeme/src/lib.rs'],[],[('argument escaping and metadata formatting','Profiler::with_counter'),('metadata parsing','EventDecoder::from_separate_buffers')],['ProfilingData::metadata after writing a profile'])
p('C25','The summary table shows every column that has data',
 'In the human-readable summary, the cache-hit, blocked-time, incremental-load and incremental-hashing columns are each shown exactly when some analysed item has a non-zero value in it. Rows come in order of decreasing self time and are cut only at the first row below the requested percentage, and when one is requested the share reported for the rows kept is the sum of theirs.',
 ['inputs'],'every list of analysed items',
 'No test exists; the combination of which items have which data decides the outcome.',
 ['summarize/src/main.rs'],[('has_* flags','column has data','summarize')],[('column scan','summarize')],['standard output of summarize summarize'])
p('C26','Chrome trace events carry the recorded times in microseconds',
 'Each interval event not shorter than the requested minimum appears exactly once in the Chrome trace, in stored order, with its label, kind, arguments, process and (mapped) thread id. Its time stamp and duration are the recorded times in whole microseconds, rounded down, and no other trace events of complete type appear. Each profile also gets one process_sort_index record holding its start time, and one process_name record exactly when its command line has a --crate-name.',
 ['inputs'],'every profile, every minimum duration',
 'No test exists.',
 [CR],[],[('conversion','as_micros, get_args, main')],['chrome_profiler.json'])
p('C27','Hardware counters report monotone, correctly differenced counts',
 'A hardware-counter clock reports the number of counted events since its creation, corrected for interrupts where requested, and never runs backwards on one thread.',
 ['schedules','configurations'],'every interleaving with the kernel updating the counter page',
 'Needs privileged hardware counters; the tests never use them.',
 ['measureme/src/counters.rs'],[],[('rdpmc read loop','hw::Counter::read')],['Counter::since_start'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
