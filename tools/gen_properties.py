#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SER="measureme/src/serialization.rs"; RAW="measureme/src/raw_event.rs"; PROF="measureme/src/profiler.rs"
STB="measureme/src/stringtable.rs"; HDR="measureme/src/file_header.rs"; EID="measureme/src/event_id.rs"
CNT="measureme/src/counters.rs"; DLIB="decodeme/src/lib.rs"; DEV="decodeme/src/event.rs"; DST="decodeme/src/stringtable.rs"
DPL="decodeme/src/event_payload.rs"; DLW="decodeme/src/lightweight_event.rs"; PD="analyzeme/src/profiling_data.rs"
AN="analyzeme/src/analysis.rs"; SC="analyzeme/src/stack_collapse.rs"; V8="analyzeme/src/file_formats/v8.rs"; V9="analyzeme/src/file_formats/v9.rs"
SUM="summarize/src/main.rs"; DIFF="summarize/src/diff.rs"; AGG="summarize/src/aggregate.rs"; CROX="crox/src/main.rs"
MMV="mmview/src/main.rs"; MME="mmedit/src/main.rs"; SCM="stack_collapse/src/main.rs"; FG="flamegraph/src/main.rs"

p("C01","Every stream write is atomic and its returned address is exact",
  "For any number of threads writing data of any size to one stream, the bytes of each write appear in that stream exactly once, unchanged, in order and contiguously, never mixed with another write's bytes. The address a write returns is the offset in the stream at which its first byte lies, and consecutive writes get consecutive, non-overlapping address ranges.",
  ["schedules","inputs","histories"],"every interleaving of writers, every write size (below, at and above each buffering threshold) and every buffer fill level",
  "The tests write from one thread with fixed sizes around the thresholds; thread interleavings and other fill levels are not reached.",
  [SER],[("one critical section covers address read, append and address increment","SerializationSink::write_atomic / write_bytes_atomic"),("buffer is flushed before a page is written directly","SerializationSink::write_bytes_atomic")],
  ["public write functions of the sink"],[("sink buffer and address","bytes not yet on a page, and the stream length so far",SER)])
p("C02","Page framing: writers and every reader agree on the container layout",
  "A profile file is a sequence of pages, each a tag byte, a 4-byte little-endian payload length and exactly that many payload bytes, and each page is written in one uninterruptible step even when several streams share the file. Every reader takes tag, length and payload from exactly those positions, advances by exactly the page's size, and gives each stream the concatenation of its own pages in file order.",
  ["schedules","inputs"],"every interleaving of streams sharing one backing store, every page size and every page order",
  "The tests interleave three streams from a single thread in a fixed rotation and never compare the writer layout with the standalone readers for all sizes.",
  [SER,MME,DLIB],[("tag, length and payload written under one lock of the backing storage","SerializationSink page writer"),("page parsing loops","split_streams, mmedit truncate"),("tag numbering and its inverse","PageTag")],["split_streams output","bytes in the backing file"])
p("C03","Buffered data is never lost by flush, drop or byte extraction",
  "When a stream is flushed through its writer view, dropped, or turned into bytes, every byte written to it before that point reaches the backing storage, once and in order, before the buffered copy is discarded. Extracting a stream's bytes returns the complete stream, including what was still buffered.",
  ["histories","inputs"],"every sequence of writes followed by flush, drop or extraction, and every buffer fill level",
  "The tests drop sinks only after fixed-size rounds; a flush or drop that is skipped for some fill level is not reached.",
  [SER],[("drop flushes under the sink's lock","Drop for SerializationSink"),("flush writes the page before clearing","SerializationSink::flush"),("extraction flushes first","SerializationSink::into_bytes")],["contents of the backing storage"])
p("C04","I/O failures are reported, never swallowed",
  "If creating, writing, flushing or reading a file fails anywhere in the recording library or the command line tools, the failure surfaces to the caller as an error or a panic; no tool reports success while part of its output could not be written. Short writes are never treated as complete.",
  ["fault_sequences"],"every I/O operation failing at any point (disk full, closed descriptor, permission), including in the final flush of buffered writers",
  "No test injects an I/O fault.",
  [SER,HDR,PROF,PD,SUM,CROX,SCM,FG,MME],[("results of I/O calls are unwrapped or propagated","every call site of an io::Result"),("buffered writers are flushed before they go out of scope","tool mains")],["process exit status","returned Result"])
p("C05","Recording cannot deadlock and holds every lock it needs",
  "No sequence of recording, flushing, dropping and extracting operations from any threads can deadlock: locks are always taken in one global order, and no thread re-acquires a lock it already holds. A user-supplied callback runs with no lock held other than that of the stream being written.",
  ["schedules"],"every interleaving of any recording operations on any number of streams sharing one file",
  "Deadlocks need particular interleavings of several threads; all tests are single-threaded.",
  [SER,STB,PROF],[("per-stream lock before shared storage lock","SerializationSink")],["lock acquisition graph"])
p("C06","Raw event encoding round-trips every representable value",
  "Packing an interval's start and end, an instant, or an integer into the 48-bit fields of a raw event and reading them back gives the original values, for every representable value; no event kind is mistaken for another. Serialized events have the documented 32-byte little-endian layout on every target, and deserializing gives back the same event.",
  ["inputs","configurations"],"all 2^48-range payload values, all ids and thread ids, little- and big-endian targets",
  "Tests sample a handful of boundary values on a little-endian machine; the big-endian code is never even compiled here.",
  [RAW],[("bit packing and unpacking","RawEvent constructors and accessors"),("byte layout","RawEvent::serialize / deserialize")],["public RawEvent API"])
p("C07","Values that cannot be represented are rejected",
  "Creating an interval whose end precedes its start or whose end exceeds the maximum interval value, or an instant or integer larger than the maximum single value, or a user virtual string id beyond the reserved range, panics instead of recording a corrupted event or id. Every value inside the documented range is accepted.",
  ["inputs"],"all 64-bit values in every value position",
  "Tests check a few panicking values; the accepted/rejected boundary for all inputs is not determined by them.",
  [RAW,STB],[("range assertions dominate every construction","RawEvent::new_interval/new_instant/new_integer, StringId::new_virtual, virtual string mapping")],["constructor calls"])
p("C08","Each recording call stores exactly one event with the caller's data",
  "Recording an instant or integer event, or finishing an interval, appends exactly one event to the event stream, holding exactly the event kind, event id, thread id and value the caller supplied, in their own fields. Time values come from the profiler's own counter, read at the start and at the end of the interval (or at the instant) respectively.",
  ["inputs","histories"],"every argument value and every sequence of recording calls",
  "End-to-end tests use a few ids and thread numbers whose mix-ups could cancel out, and only some of the entry points.",
  [PROF,RAW,PD],[("argument forwarding","Profiler::record_*, start_recording_*, finish_recording_*"),("programmatic builder","ProfilingDataBuilder")],["events in the event stream"])
p("C09","Interval guards record exactly once however they end",
  "An interval guard records its event exactly once: on normal scope exit, early return, explicit finish with a replaced event id, and while unwinding from a panic; the replaced id is the one recorded. A detached timing records exactly once when it is finished and nothing if it is dropped.",
  ["histories","programs","fault_sequences"],"every way control can leave the guarded region, including panics",
  "Tests let guards drop normally; they do not unwind through guards or count events per exit path.",
  [PROF],[("Drop for TimingGuard","measureme/src/profiler.rs"),("finish_with_override_event_id, finish_recording_interval_event","measureme/src/profiler.rs")],["events in the event stream"])
p("C10","String id spaces are disjoint and addresses map one-to-one",
  "User virtual ids, the metadata id, the invalid id and concrete string ids occupy disjoint ranges, and the classification of an id as virtual agrees with those ranges. Converting a string-data address to an id and back gives the same address, and ids below the concrete range cannot be converted.",
  ["inputs"],"all 64-bit ids and addresses",
  "Tests touch a handful of ids; disjointness and the inverse relation hold for all 2^64 values or not at all.",
  [STB],[("reserved id constants","measureme/src/stringtable.rs"),("offset conversion","StringId::from_addr / to_addr / is_virtual")],["StringId API"])
p("C11","String encoding is exact: declared size, content, references, terminator",
  "A string or composite string is stored as its value bytes and 9-byte tagged little-endian references in the given order followed by one terminator byte, and the declared size is exactly the number of bytes written. The id returned for a string designates exactly the position where it was stored.",
  ["inputs"],"all strings and all component sequences of any length",
  "Tests encode a few short strings with a few component shapes.",
  [STB],[("SerializableString for str, slices and fixed-size arrays of components","measureme/src/stringtable.rs"),("StringTableBuilder::alloc","measureme/src/stringtable.rs")],["string data stream"])
p("C12","Virtual string mappings are stored faithfully, singly and in bulk",
  "Each virtual-to-concrete mapping, made singly, in bulk or for the metadata, adds to the index exactly one 16-byte entry of little-endian id and little-endian string address, written as one unit, and a bulk mapping adds one entry per id in order. The reader decodes the entries with the same layout and resolves a mapped id to that address.",
  ["inputs","histories"],"all ids, addresses and id-sequence lengths",
  "Tests map one or two ids; the entry layout for all values and all lengths is not sampled.",
  [STB,DST],[("index entry serialization","map_virtual_to_concrete_string, bulk_map_virtual_to_single_concrete_string, alloc_metadata"),("index entry parsing","decodeme StringTable::new")],["string index stream"])
p("C13","String decoding inverts encoding; the shortcut path agrees with the full one",
  "Decoding a string id yields the concatenation of its components' decoded texts in order, whichever of the borrowing shortcut or the allocating path is taken. An unmapped virtual id or the invalid id yields the unknown marker and unterminated data yields the invalid marker; neither is taken for real text.",
  ["inputs"],"all string tables the writer can produce and all ids",
  "Tests decode a few tables; a shortcut that misfires for particular addresses or reference values is not reached.",
  [DST],[("StringRef::to_string and write_to_string","decodeme/src/stringtable.rs")],["StringRef API"])
p("C14","Event ids built from label and arguments parse back to them",
  "An event id built from a label and arguments is stored as the label followed by a separator and one argument each, in order, and parsing that text gives back the same label and the same arguments in order. Empty parts and parts holding control characters other than whitespace are reported as parse errors and not silently altered.",
  ["inputs"],"all labels, all argument lists of any length and content",
  "Tests parse six fixed texts and never couple builder and parser for arbitrary arguments.",
  [EID,DEV],[("EventIdBuilder::from_label_and_arg(s)","measureme/src/event_id.rs"),("event id parser","decodeme/src/event.rs")],["decoded Event label and arguments"])
p("C15","Every stream starts with its own header and readers verify it first",
  "The file and each of its three streams begin with an 8-byte header of a magic value specific to that stream and the little-endian current format version, written before anything else. Readers check length, magic and version of the right stream before using any of its content and reject a mismatch with an error, never with a wrong result.",
  ["inputs","fault_sequences"],"every file content, including short, foreign and swapped-stream files",
  "Tests corrupt one byte of one header; they do not show that each reader checks each stream with the matching magic before use.",
  [HDR,PROF,STB,DLIB,DST,PD],[("write_file_header / verify_file_header / read_file_header","measureme/src/file_header.rs, decodeme/src/lib.rs")],["errors returned by the readers"])
p("C16","Every supported format version is decoded by its own decoder, faithfully",
  "Loading a profile picks the decoder for the version stated in the file's header, supports exactly the versions the tools claim, and returns an error that says whether an unsupported version is too new or too old. Events, payloads and metadata of the older format are presented with every field unchanged.",
  ["inputs","configurations"],"all 2^32 version numbers and all events of old-format files",
  "The tests load two sample files, one per supported version.",
  [PD,V8,V9],[("version dispatch","ProfilingData::from_paged_buffer"),("old-to-current conversion","analyzeme/src/file_formats/v8.rs")],["ProfilingData API"])
p("C17","Event iteration yields each event once in both directions with exact length",
  "Iterating over a profile yields every recorded event exactly once, forwards in recording order and backwards in the reverse, and mixing both ends neither repeats nor skips an event. The advertised remaining length is always exactly the number of events still to come.",
  ["inputs","histories"],"every number of events and every interleaving of calls at the two ends",
  "Tests iterate from one end at a time over short profiles.",
  [PD,DLIB],[("two-cursor iterator","ProfilerEventIterator"),("index to address computation","EventDecoder")],["iterator API"])
p("C18","Lightweight and full decoding agree with the stored record",
  "Decoding an event fully or in its lightweight form reads the record at the same position and gives the same payload and thread id, equal to what was recorded; kind and label texts come from the record's own kind and event id. Recorded counter values become times relative to the profile's start time, with integer, instant and interval events told apart exactly as recorded.",
  ["inputs"],"all records and all event positions",
  "Tests compare a few events whose fields coincide.",
  [DLIB,DPL,PD],[("decode_full_event, decode_lightweight_event","decodeme/src/lib.rs"),("payload classification","decodeme/src/event_payload.rs")],["EventDecoder API"])
p("C19","Summary accounting: each event kind changes exactly its own totals",
  "The analysis attributes to each label exactly the documented totals per event kind: time, self time, counts, cache hits and misses, blocked, load and hashing time and artifact sizes; an interval's duration is taken from the self time of its direct enclosing event on the same thread and from no other. Total time is the sum over threads of the span from first start to last end.",
  ["inputs","histories"],"all event sequences, event kinds (known and unknown), nestings and thread counts",
  "Tests feed a dozen small traces; combinations of kind of parent and kind of child are mostly not covered.",
  [AN,"measureme/src/rustc.rs"],[("ProfilingData::perform_analysis","analyzeme/src/analysis.rs")],["AnalysisResults"])
p("C20","Collapsed stacks account for every nanosecond once",
  "Collapsing a profile attributes each interval's self time to the stack of labels enclosing it on its thread, subtracting it from its direct parent only, and books the gaps of each thread under the root. Non-interval events are ignored, and stack names never leak from one event or thread to another.",
  ["inputs","histories"],"all event sequences, labels, nestings and thread counts",
  "Tests feed two small traces on one or two threads.",
  [SC,SCM,FG],[("collapse_stacks","analyzeme/src/stack_collapse.rs"),("folded output format","stack_collapse, flamegraph")],["collapse_stacks result","output lines"])
p("C21","Interval containment, kinds and durations follow the time order",
  "An interval contains another event exactly if it starts no later and ends no earlier (an instant counting as both its start and end); instants and integers contain nothing, and an integer is contained in nothing. Kind predicates, start, end, duration and integer accessors of events report exactly the payload they carry.",
  ["inputs"],"all pairs of payloads and all relative orders, including equal end points",
  "No test enumerates the orderings; equal end points decide nesting in every analysis.",
  [DPL,DEV,DLW],[("contains / duration / start / end / predicates","decodeme/src/event_payload.rs")],["EventPayload, Event and LightweightEvent API"])
p("C22","Diff is the exact signed difference, with missing entries counted as zero",
  "The difference of two summaries contains every label of either side once, and each value is change minus base of the same quantity, a missing side counting as zero; durations keep sign and magnitude. Percentages relate the difference to the base value of the same quantity. Entries are listed with the largest self-time difference first, artifact sizes in descending order, leaving out exactly the labels that contain an excluded text.",
  ["inputs"],"all pairs of summaries, including labels on one side only and negative differences",
  "Only the subtraction of three tiny durations is tested.",
  [DIFF,SUM],[("calculate_diff and SignedDuration","summarize/src/diff.rs")],["diff results"])
p("C23","Aggregation compares identical event sequences and reports true extremes",
  "Aggregating profiles combines corresponding intervals of all profiles only, refuses profiles whose sequences of intervals differ (in number or in the events that bound them) or that have events of several threads, and takes for each interval the smallest and the largest duration over all profiles and their difference. The ten smallest and ten largest distinct durations and differences are reported, each with the interval that has it or with the number of intervals that have it.",
  ["inputs"],"any number of profiles and any event sequences",
  "No test covers aggregation.",
  [AGG],[("interval pairing and extrema","summarize/src/aggregate.rs")],["printed aggregates"])
p("C24","The summary table shows every selected item under the right heading",
  "The summary table lists items in order of descending self time, showing under each heading exactly that quantity, cuts off only items below the requested share of total time, and shows an optional column whenever any item has a non-zero value for it. A JSON summary carries the same results and can be used as input of a diff.",
  ["inputs","configurations"],"all analysis results and option settings",
  "No test covers the table.",
  [SUM],[("summarize main","summarize/src/main.rs")],["printed table and JSON file"])
p("C25","Chrome traces contain every selected interval with its own data",
  "The Chrome trace holds one complete event per interval event not shorter than the requested minimum, with that event's label, category, start and duration in microseconds, process and thread, plus the process metadata. Threads are merged only if their time spans do not overlap, and a thread without a mapping keeps its own id.",
  ["inputs","configurations"],"all profiles and option settings",
  "No test covers the converter.",
  [CROX],[("event mapping and thread collapsing","crox/src/main.rs")],["chrome_profiler.json"])
p("C26","The event viewer prints every event of the selected thread, in order",
  "The viewer prints each event of the profile once in recorded order, or only those of the requested thread, each with its own kind, label, arguments, payload and thread id, times being relative to the earliest start. It changes nothing and reports an unreadable profile as an error.",
  ["inputs","configurations"],"all profiles and thread filters",
  "No test covers the viewer.",
  [MMV],[("mmview main","mmview/src/main.rs")],["printed output"])
p("C27","Truncating a profile keeps it readable: header, all strings, first event page",
  "Truncation keeps the file header and every string page unchanged and in order, and keeps exactly the first event page. It accepts the versions whose container format it understands, including the current one, and rejects others with an error, never modifying the input file.",
  ["inputs"],"all page sequences and versions",
  "No test covers truncation.",
  [MME],[("mmedit truncate","mmedit/src/main.rs")],["truncated file"])
p("C28","Counter names, descriptions and readings denote the same counter",
  "Looking a counter up by name gives the counter that describes itself under that same name, with its own units, and an unknown name is an error. A counter's reading is the amount elapsed since its creation, computed from the same source at start and at reading.",
  ["configurations","inputs"],"all counter names and kinds",
  "Hardware counters cannot be opened in tests; only the wall clock is exercised.",
  [CNT],[("Counter::by_name / describe_as_json / since_start","measureme/src/counters.rs")],["Counter API"])
p("C29","Profile metadata is readable for every command line",
  "The metadata a profiler stores is valid JSON whatever the process's command line contains, and has the start time, process id, command line and counter under the names the reader uses. Decoding it gives back the command line's text, the start time and the process id.",
  ["inputs","configurations"],"all command lines, including quotes, backslashes, control and non-ASCII characters and non-UTF-8 arguments",
  "Tests see only the test runner's own command line.",
  [PROF,DLIB],[("metadata string construction","Profiler::with_counter"),("metadata deserialization","decodeme Metadata")],["ProfilingData metadata"])
p("C30","Unsafe code never reads or writes outside its objects or bad bytes",
  "Every raw view of memory taken in the recording library covers exactly the bytes of a live object without padding and with sufficient alignment. Its length is computed from the very object it points to, so no input makes it read or write out of bounds.",
  ["inputs","configurations"],"every length, layout and target",
  "A test cannot observe an out-of-bounds read that happens to hit mapped memory, nor show absence of padding.",
  [RAW,STB,CNT],[("raw slices over events and bulk index entries","measureme/src/raw_event.rs, stringtable.rs"),("counter page reads","counters.rs")],["unsafe blocks"])
p("C31","Misuse of the recording API is rejected at compile time",
  "Programs that finish one interval twice, keep an interval guard longer than its profiler, or use a stream after its bytes were extracted do not compile; discarding a started interval unused draws a warning. The profiler and its streams can be shared between threads, and their guards cannot be duplicated.",
  ["programs"],"all client programs",
  "A test suite contains only programs that compile.",
  [PROF,SER,EID],[("ownership and lifetimes of guards and sinks","measureme public API")],["compiler verdict"])
p("C32","The profile builder reproduces exactly the events it is given",
  "Building profiling data programmatically stores each interval, instant and integer with exactly the given kind, label, thread and values, nested events before the event that encloses them. Converting it to profiling data loses and adds nothing.",
  ["inputs","histories"],"all builder call sequences",
  "The builder is what the tests are written with, so an error in it hides errors elsewhere.",
  [PD],[("ProfilingDataBuilder","analyzeme/src/profiling_data.rs")],["resulting ProfilingData"])
p("C33","Artifact sizes and per-label results merge independently of order",
  "Size events with the same label add up into one entry and different labels stay apart; every label with recorded data appears exactly once in the results. The results carry each total under its own name when written out and read back.",
  ["inputs","histories"],"all event sequences and label sets",
  "Tests use two labels and one order.",
  [AN],[("artifact size merging and result collection","analyzeme/src/analysis.rs")],["AnalysisResults"])
# honestly out of reach of static analysis
p("C40","Hardware counter readings are accurate",
  "Instruction counts reported by the hardware counters equal the instructions the thread executed since the counter was created, across interrupts and context switches.",
  ["schedules","configurations"],"all kernels, CPUs and preemption points",
  "Needs the hardware; tests never open a hardware counter.",
  [CNT],[("sequence-lock read of the kernel page and rdpmc","measureme/src/counters.rs")])
p("C41","Recorded wall-clock times never run backwards and match real time",
  "Times of events recorded one after another on a thread never decrease and differ from real elapsed time only by the clock's resolution.",
  ["schedules","histories"],"all executions",
  "A property of the platform clock at run time.",
  [CNT],[("monotonic clock","measureme/src/counters.rs")])
p("C42","Reading a profile always ends, whatever the file contains",
  "Splitting a file into streams, looking up and expanding strings, decoding events with their labels and arguments, and analysing the events ends with a result, an error or a panic for every file content, including damaged and truncated ones: no reading loop can come round without progress, and no string is expanded within its own expansion.",
  ["inputs"],"all file contents, string tables and event sequences",
  "Tests read well-formed profiles; an endless loop needs a particular malformed byte or an unusual order of events.",
  [DST,DEV,SER,PD,SC],[("string expansion","StringRef::to_string / write_to_string"),("page splitting","split_streams"),("event id parsing","EventDecoder::decode_full_event"),("stack handling","ProfilingData::perform_analysis, collapse_stacks")],["public reading API"])
p("C43","Recording overhead stays low",
  "Recording an event costs a small bounded amount of processor time, whatever the size of the recording.",
  ["histories"],"all recording histories",
  "Run-time cost is a measured quantity.",
  [SER],[("buffered writing","measureme/src/serialization.rs")])
p("C44","A stream buffers at most one page and accepts writes of any size",
  "After every write, flush or drop a stream keeps at most one page (256 KiB) of data in memory, so memory use stays bounded and a crash loses at most one page per stream; no page in the file is larger than that; and no write, flush or drop panics because of the sizes of the data written before or now.",
  ["histories","inputs","crash_points"],"every history of writes of any sizes through every writing interface",
  "Tests write a few sizes and never look at how much is buffered; a rare combination of buffer fill and size decides.",
  [SER],[("page-sized buffering","SerializationSink::write_atomic, write_bytes_atomic, io::Write view, Drop")],["public SerializationSink API"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
