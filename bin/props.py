"""Which units, functions and harnesses decide which property."""
HOOKS = None
SINK_NOTE = ('Proof for all inputs and all interleavings of lock-protected sections: each SerializationSink function verified against its contract in Verus; '
             'trusted: contracts of parking_lot::Mutex (mutual exclusion), Vec/slice/HashMap/File stand-ins, std write_all, little-endian conversion; '
             'under 2^62 bytes per stream; I/O errors panic. The real code is also exercised on every run to validate the trusted contracts.')
KANI = 'contract-based deductive verification (Verus on the extracted code; Kani/CBMC contracts as loop-free full-domain harnesses on the compiled crate)'
R = 'measureme/src/raw_event.rs RawEvent::'
PROPS = {
    'C01': dict(units=[('sink', None)], witness='w_lib', note=SINK_NOTE),
    'C02': dict(units=[('sink', None)], witness='w_lib', note=SINK_NOTE),
    'C03': dict(units=[('sink', None)], witness='w_lib', note=SINK_NOTE),
    'C04': dict(units=[('split', None)], witness='w_lib',
                note='Proof for every byte sequence, two contracts on split_streams: exact streams on well-formed pages (panic-free), and a normal return implies well-formed pages. Trusted: HashMap and little-endian stand-ins.'),
    'C05': dict(units=[('raw', None)], backed=('raw',), kani=[('raw', ['limits', 'interval_roundtrip', 'instant_roundtrip', 'integer_roundtrip', 'interval_rejects', 'instant_rejects',
                              'integer_rejects', 'accessors'])], witness='w_lib', technique=KANI,
                fns=[R + f for f in ('new_interval', 'new_instant', 'new_integer', 'pack_values', 'start_value', 'end_value', 'value', 'is_instant', 'is_integer')],
                note='Twice for all inputs: requires/ensures on every constructor and accessor in Verus (bit operations by bit-vector lemmas; each constructor also without precondition: it returns only for values that fit), and loop-free Kani/CBMC proofs over the full domain of ids and values on the compiled crate; complete, no bound.',
                trust=['Kani 0.68 / CBMC translation of MIR', 'x86_64 little-endian target']),
    'C06': dict(units=[('raw', ['serialize', 'lemma_', 'default']), ('rawbig', ['serialize', 'lemma_', 'u64$', 'default'])], backed=('raw',), kani=[('raw', ['serialize_layout', 'deserialize_layout', 'serialize_inverse', 'serialize_rejects', 'deserialize_rejects'])],
                witness='w_lib', technique=KANI, fns=[R + 'serialize', R + 'deserialize', R + 'default'],
                note='Loop-free Kani/CBMC proofs over all events, all 32-byte buffers and slices of every other length, through the unsafe byte casts (little-endian target). In Verus the same contracts, with the byte cast of the repr(C) struct as the one trusted step, and, in unit rawbig, the big-endian code, which is compiled out here: it reads and writes the same layout.',
                trust=['Kani 0.68 / CBMC translation of MIR', 'Kani runs the x86_64 little-endian target']),
    'C07': dict(units=[('payload', None), ('raw', ['_value$', '::value$', 'is_in', 'axiom_48'])], backed=('raw',), kani=[('raw', ['accessors'])], witness='w_lib',
                note='Proof for all payloads and times in Verus over nanosecond integers; RawEvent accessors by their contract, proved in unit raw and by Kani; trusted: std::time arithmetic contracts (no overflow of SystemTime).',
                assume=['SystemTime/Duration arithmetic of std does not overflow and is exact in nanoseconds']),
    'C08': dict(units=[('strread', None), ('strwrite', None), ('profiler', None)], witness='w_lib',
                note='Proof for all strings, nestings and index contents in Verus: writer stores exactly the pieces, reader yields their concatenation, both decoding paths equal; sinks by the contract proved in unit sink. The impls for arrays, which a macro generates, are proved once for every length. Trusted: UTF-8 model of vstd, memchr, HashMap, chunks stand-ins.'),
    'C09': dict(units=[('strread', None), ('strwrite', None), ('profiler', None)], witness='w_lib',
                note='Proof for all ids, addresses and mapping sequences in Verus; panics modelled as divergence for the refusals. Trusted: the unsafe pair-to-bytes cast of bulk mapping (little endian), HashMap, chunks, Iterator::map/collect stand-ins.'),
    'C10': dict(units=[('eventid', None)], witness='w_lib',
                note='Proof for all texts in Verus: the parser against the documented grammar over bytes, EventIdBuilder against the pieces it stores, and a lemma that composed ids parse back. Trusted: UTF-8 model of vstd, memchr, SmallVec as Vec, u8::is_ascii_*; alloc_string by the contract proved in strwrite; printing to stderr dropped.'),
    'C11': dict(units=[('headers', None), ('decoder', None), ('strread', [r'StringTable::new', r'header'])], witness='w_lib',
                note='Proof for all byte sequences in Verus: header writer and both readers, the opening of the three streams and the dispatch on the version. Files whose page list is malformed (C04), whose index is not whole entries or whose metadata string does not terminate are outside the precondition of the openers. The version 8 decoder is an external crate behind a stub; its version constant is taken as 8 (the witness opens version 8 files). ',
                assume=['measureme 10 CURRENT_FILE_FORMAT_VERSION is 8', 'serde_json::from_str yields Ok for the metadata texts called valid']),
    'C12': dict(units=[('decoder', None)], witness='w_lib',
                note='Proof for all event streams and all histories of next / next_back / size_hint in Verus, through the trait object, with a driver that proves the whole-history statement by a loop invariant. iter_full is under contract for every way of taking its events from the two ends (the mapped iterator is expanded into a loop whose steps pick an end freely). RawEvent::deserialize by the contract Kani proves; that Iterator::map and ExactSizeIterator::len of std do just that is trusted and exercised by the witness.',
                trust=['Iterator::map and the provided methods of Iterator / DoubleEndedIterator / ExactSizeIterator', 'size_of::<RawEvent>() is 32 (asserted by the Kani layout harnesses of C06)']),
    'C13': dict(units=[('decoder', None)], witness='w_lib',
                note='Proof for every value the old decoder can return: each conversion function under contract in Verus and the trait implementation against them; iter_full goes through the same trait object. The old decoder (external crate decodeme 10) is a stub with uninterpreted results; what it reads from a file is exercised only by the witness, which writes version 8 files byte by byte.'),
    'C14': dict(units=[('analysis', None), ('payload', None), ('table', [r'fn summarize$'])], witness='w_lib',
                note='Proof for every properly nested event sequence of any length and number of threads in Verus: perform_analysis against sums defined by the parent relation, by loop invariants over the real loops; summarize prints that total time (unit table). Event::contains and friends by the contracts proved in unit payload; the event stream by the contract proved in unit decoder. Trusted: map stand-ins (entry, values, drain), derived Clone/Default, kinds compared through codes, the local closure beta-reduced, .values().map().sum() written as a loop.',
                assume=['the map closures / iterator adaptors named in the trusted list mean what std documents', 'profiles are properly nested per thread (quantifier of the property)']),
    'C15': dict(units=[('collapse', None)], witness='w_lib', bins=['stack_collapse'],
                note='Proof for every properly nested event sequence on any number of threads whose durations and spans sum to at most 2^64 - 1 ns, in Verus: every stack has its time without children, "rustc" is the span not covered by top-level intervals, and a lemma that the numbers add up to the span of all threads. Stacks are compared as texts (labels joined by ;). The main functions of stack_collapse and flamegraph are under contract too: the one writes to out.stacks_folded exactly one line for each stack and its number, the other hands inferno exactly these lines and writes the picture to rustc.svg; no other file is touched. Trusted: hash map stand-ins, String::truncate/len over the UTF-8 model of vstd, File::create and BufWriter over a map from names to texts (flushed at the end), inferno as an uninterpreted function of the lines; iteration and decoding by the contracts proved in unit decoder. The witness compares the file the real stack_collapse writes.'),
    'C16': dict(units=[('analysis', None), ('table', [r'fn summarize$'])], witness='w_lib', bins=['summarize'],
                note='Proof for every event sequence whose per-label sums fit 64 bits (part of the same contract as C14: nested intervals are assumed too) in Verus; label order is the byte order of BTreeMap<Cow<str>>. The table of artifact sizes that summarize prints is proved to list them all, in that order (unit table). Trusted: BTreeMap stand-in in key order, kinds compared through codes, prettytable.'),
    'C17': dict(units=[('diff', None), ('difftable', None)], witness='w_lib', bins=['summarize'],
                note='Proof for every pair of summaries with unique labels, times below 2^64 ns and counts and sizes below 2^63, in Verus: every function of the diff module; f64 is opaque (the relative changes are the term (change - base) / base * 100 with uninterpreted operations). Trusted: hash map / hash set stand-ins, slice::sort_by (its comparison closure is verified against the order key), i128::abs, Iterator::chain/enumerate/map/collect written as loops. Unit difftable proves what summarize diff does with the result: both summaries are read, the JSON file or the two tables hold exactly the rows of the result in its order (without the labels excluded on the command line), every cell with its sign; Debug of SignedDuration is under contract. There the result of calculate_diff is an uninterpreted function of the two summaries, and serde_json, prettytable, Display and Debug of numbers and Duration are trusted. A side whose path has the extension json is the saved summary, any other the analysis of the profile; that reading back what was saved gives the same summary (serde_json and the derives) is trusted and validated by the witness. The witness drives the real summarize diff, with and without --json, on profiles and on saved summaries.',
                assume=['counts and artifact sizes are below 2^63 (the diff has signed 64-bit counts)']),
    'C18': dict(units=[('extrema', None)], witness='w_lib', bins=['summarize'],
                note='Proof for every positive limit, every totally ordered value type, every source type and every sequence of insertions in Verus: add_range keeps the table of the k most extreme values seen with their number of insertions, against the whole history as ghost state, and a driver proves the statement for any sequence by a loop invariant. Trusted: BTreeMap stand-in (entry, first and last key, remove, len); the loop over the two tables is unrolled. The witness drives the real summarize aggregate (limit 10).',
                assume=['the order of the value type is total and embeds in the integers (every order on finitely many values does)', 'fewer than 2^64 - 1 insertions']),
    'C19': dict(units=[('aggregate', None), ('extrema', None)], witness='w_lib', bins=['summarize'],
                note='Proof for every properly nested trace and every number of profiles in Verus: the trait BackwardsIterator carries a contract (next_back takes the first of what is still to come), SamplePoints implements it for the walk through the tree of intervals, SampleIntervals for the pairs of consecutive points, AggregatedSampleIntervals for the least duration and the spread across profiles; lemmas prove that the walk lists the start and end of every interval and every instant exactly once, in time order, with the innermost enclosing interval as parent; aggregate_profiles adds exactly the aggregated gaps to the two tables, whose contents unit extrema proves, and prints exactly the four tables (entries by increasing value, one line each, with the one gap or the number and share of gaps), the text of a gap being the contract of the closure describe, which is lifted to a function of its own; the assertions in describe are proved never to fire; the command opens every file in the given order and prints nothing when one does not open. Proved for the iterator types that aggregate_profiles uses. Trusted: a BTreeMap iterates by increasing key; formatting of integers and floats ({:.2}); machine floats are opaque. The witness compares the printed report to an oracle on the real binary. Chains of iterator adapters (filter, peekable, chain, map) are expanded into loops over vectors.',
                assume=['derived Clone and PartialEq copy and compare the values', 'fewer than 2^31 - 1 gaps in a trace']),
    'C20': dict(units=[('crox', [r'generate_thread_to_collapsed_thread_mapping', r'timestamp_to_min_max', r'lemma_', r'vx_map_collect']), ('payload', None)], witness='w_lib', bins=['crox'],
                note='Proof for every set of threads with any times and any ties in Verus: the loop that assigns ids keeps the invariant that two threads share an id only if one was over strictly before the other started, and that the thread whose id is taken over was placed before and not taken over before; ids in use are exactly 0..n. Spans of threads are defined over all timed events by a recursive specification. Trusted: hash map and peekable stand-ins, slice::sort_unstable_by_key sorts; std::cmp::min and max are expanded. The witness drives the real crox.',
                assume=['fewer than 2^32 threads', 'the order of an iteration over a hash map is arbitrary (any order is proved)']),
    'C21': dict(units=[('mmedit', None), ('decoder', [r'fn read_file_header'])], witness='w_lib', bins=['mmedit'],
                note='Proof for every well-formed page list of any length in Verus: truncate returns the header and the kept pages, with a lemma that both string streams are unchanged and the event stream is its first page. main is under contract too: it writes exactly that to the path with the extension replaced, touches no other file, and writes nothing when it refuses. Trusted: the parsed command line, std::fs::read and write over a map from paths to contents, Path::with_extension. The witness drives the real binary.'),
    'C22': dict(units=[('mmview', None), ('payload', None)], witness='w_lib', bins=['mmview'],
                note='Proof for every profile and every thread filter in Verus: the text on standard output is the concatenation, in stored order, of the text of every event of the requested thread, with times in whole microseconds since the earliest start of all events; format! and println! are expanded mechanically into pushes of their pieces. Trusted: Display of integers, str and Cow; [T]::join; standard output as a growing text (an explicit parameter in the extracted functions). Iterator adapters are expanded into loops. The witness compares the output of the real mmview.',
                assume=['standard output takes everything that is printed']),
    'C23': dict(units=[('profiler', None)], kani=[('raw', ['interval_roundtrip', 'instant_roundtrip', 'integer_roundtrip', 'serialize_layout'])], witness='w_lib',
                note='Proof for all kinds, ids, threads, values and readings in Verus: every recording function appends exactly one event, in one atomic write, with the given contents and a start and end that are consecutive readings of the counter; abandoned detached timings write nothing. RawEvent by the contract Kani proves, the sink by the contract proved in unit sink. Assumed: the counter never runs backwards and stays below 2^48 - 1 (about 3 days in ns); calling drop is Rust semantics (drop(guard) and end of scope run Drop::drop once).',
                assume=['counter readings are monotone and at most MAX_INTERVAL_VALUE', 'drop runs Drop::drop exactly once (forget is outside)']),
    'C24': dict(units=[('profiler', None), ('strwrite', None)], witness='w_lib',
                note='Proof for all argument texts in Verus: the bytes stored under the metadata id are the JSON object with the two numbers, the escaped command line and the counter, and the escaped text decodes (RFC 8259 string grammar, as a recursive specification) to each argument followed by a space. format! is expanded mechanically into pushes of its literal pieces and arguments; trusted: Display of integers is decimal, {:04x} is four hex digits. That serde_json accepts RFC 8259 texts is checked by the witness, which starts a real process with odd arguments and opens its profile.',
                assume=['std::env::args yields the program arguments', 'serde_json accepts every RFC 8259 object']),
    'C25': dict(units=[('table', None)], witness='w_lib', bins=['summarize'],
                note='Proof for every list of analysed items and every percentage in Verus: the flags equal the existence of an item with data (the early exit of the scan is part of the loop contract, a lemma moves the fact from the scanned part to all items), the header and every row have exactly the cells of the columns that are shown, and the rows are the sorted items up to the first below the percentage. Machine floats are opaque: the percentage of an item is the term self / total * 100 with uninterpreted operations, and the share of the kept rows is the sum of theirs in row order. Trusted: prettytable (rows and cells kept in order), {:.2?} and {:.3} formatting, slice::sort_by. The witness parses the table the real summarize prints.',
                assume=['standard output takes everything that is printed']),
    'C26': dict(units=[('crox', [r'crox_main', r'as_micros', r'get_args', r'file_prefixes_in_dir', r'lemma_', r'VxSer', r'ser\b']), ('payload', None)], witness='w_lib', bins=['crox'],
                note='Proof for every list of profiles and every set of options in Verus: main writes, profile by profile, one complete record for each interval event that is long enough, in stored order, with the given fields, then the process records; lemmas show that no argument is lost and that the crate name is the text up to the next space. The serde attributes of Event (rename, serialize_with) and the json! literals are translated mechanically into the value they write; trusted: derive(Serialize) and serde_json write that value, str::find, split_at, read_dir. The witness reads the JSON the real crox writes.',
                assume=['intervals do not end before they start; times are between 1970 and 2554', 'the thread order assumptions of C20']),
}
NOT_APPLICABLE = {
    'C27': 'hardware counters: every result comes from rdpmc / perf_event_open and inline assembly; no contract verifier here models them and the sandbox has no counters, so neither a proof nor a replay is possible',
}
