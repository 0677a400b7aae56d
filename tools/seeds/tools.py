A = "analyzeme/src/analysis.rs"; SC = "analyzeme/src/stack_collapse.rs"; SM = "summarize/src/main.rs"; SD = "summarize/src/diff.rs"
CX = "crox/src/main.rs"; MV = "mmview/src/main.rs"; ME = "mmedit/src/main.rs"; DS = "decodeme/src/stringtable.rs"; DE = "decodeme/src/event.rs"; PD = "analyzeme/src/profiling_data.rs"
V8 = "analyzeme/src/file_formats/v8.rs"; PF = "measureme/src/profiler.rs"

WRITER = """
use measureme::*;
use std::sync::Arc;
struct P { st: StringTableBuilder, ev: SerializationSink }
impl P {
    fn new(name: &str) -> P {
        let mut f = std::fs::File::create(format!("{}.mm_profdata", name)).unwrap();
        measureme::file_header::write_file_header(&mut f, measureme::file_header::FILE_MAGIC_TOP_LEVEL).unwrap();
        let b = SerializationSinkBuilder::new_from_file(f).unwrap();
        let ev = b.new_sink(PageTag::Events);
        measureme::file_header::write_file_header(&mut ev.as_std_write(), measureme::file_header::FILE_MAGIC_EVENT_STREAM).unwrap();
        let st = StringTableBuilder::new(Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex))).unwrap();
        st.alloc_metadata("{ \\"start_time\\": 0, \\"process_id\\": 7, \\"cmd\\": \\"x\\" }");
        P { st, ev }
    }
    fn put(&self, raw: RawEvent) { self.ev.write_atomic(std::mem::size_of::<RawEvent>(), |bytes| raw.serialize(bytes)); }
    fn interval(&self, kind: &str, label: &str, tid: u32, s: u64, e: u64) {
        self.put(RawEvent::new_interval(self.st.alloc(kind), EventId::from_label(self.st.alloc(label)), tid, s, e));
    }
    fn instant(&self, kind: &str, label: &str, tid: u32, t: u64) {
        self.put(RawEvent::new_instant(self.st.alloc(kind), EventId::from_label(self.st.alloc(label)), tid, t));
    }
}
"""
S("c17-mixed-ends", "C17", [(PD, """        let event = Some(self.data.decode_lightweight_event(self.forward_event_idx));

        // Advance the index *after* reading the event
        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();
""", """        let event = Some(self.data.decode_lightweight_event(self.forward_event_idx));

        // Advance the index *after* reading the event
        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();

        // Nothing is left to be read from the back by now
        if self.backward_event_idx < self.data.num_events() && self.backward_event_idx - self.forward_event_idx == 1 {
            self.backward_event_idx = self.forward_event_idx;
        }
""")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    for i in 0..6 { b.instant("k", &format!("e{}", i), 0, i); }
    let d = b.into_profiling_data();
    let mut it = d.iter_full();
    let mut got = vec![];
    for i in 0.. {
        let e = if i % 2 == 1 { it.next_back() } else { it.next() };
        match e { Some(e) => got.push(e.label.to_string()), None => break }
    }
    got.sort();
    assert_eq!(got, ["e0", "e1", "e2", "e3", "e4", "e5"]);
}
""", "iterating from both ends alternately until they meet", "an event in the middle is skipped", deps="measureme analyzeme")

S("c16-v8-empty-interval", "C16", [(V8, "        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },", "        OldTimestamp::Interval { start, end } if start == end => Timestamp::Instant(start),\n        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },")], """
fn put(out: &mut Vec<u8>, tag: u8, data: &[u8]) { out.push(tag); out.extend((data.len() as u32).to_le_bytes()); out.extend(data); }
fn main() {
    // a version 8 file: 32-bit string ids and addresses
    let hdr = |m: &[u8]| { let mut v = m.to_vec(); v.extend(8u32.to_le_bytes()); v };
    let mut f = hdr(b"MMPD");
    let mut sd = hdr(b"MMSD"); let mut si = hdr(b"MMSI"); let mut ev = hdr(b"MMES");
    let meta_at = sd.len() as u32; sd.extend(b"{ \\"start_time\\": 0, \\"process_id\\": 7, \\"cmd\\": \\"x\\" }"); sd.push(0xFF);
    let kind_at = sd.len() as u32; sd.extend(b"kind"); sd.push(0xFF);
    let label_at = sd.len() as u32; sd.extend(b"label"); sd.push(0xFF);
    let _ = meta_at;
    for (id, at) in [(100_000_001u32, 8u32)] { si.extend(id.to_le_bytes()); si.extend((at).to_le_bytes()); }
    let first = 100_000_003u32;
    for (s, e) in [(5u32, 9u32), (7, 7)] {
        ev.extend((first + kind_at).to_le_bytes()); ev.extend((first + label_at).to_le_bytes()); ev.extend(1u32.to_le_bytes());
        ev.extend(s.to_le_bytes()); ev.extend(e.to_le_bytes()); ev.extend(0u32.to_le_bytes());
    }
    put(&mut f, 0, &ev); put(&mut f, 1, &sd); put(&mut f, 2, &si);
    let d = analyzeme::ProfilingData::from_paged_buffer(f, None).unwrap();
    assert_eq!(d.num_events(), 2);
    for e in d.iter_full() { assert!(e.payload.is_interval(), "{:?}", e); assert_eq!(e.label, "label"); }
}
""", "a profile of the older file version with an interval of zero length", "the interval is read as an instant", deps="measureme analyzeme")

S("c19-load-nested", "C19", [(A, "                                    data.self_time -= current_event_duration;\n                                    data.incremental_load_time -= current_event_duration;", "                                    data.self_time -= current_event_duration;\n                                    if current_event.event_kind == INCREMENTAL_LOAD_RESULT_EVENT_KIND {\n                                        data.incremental_load_time -= current_event_duration;\n                                    }")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    b.interval("IncrementalLoadResult", "q", 0, 0, 100, |b| { b.interval("GenericActivity", "decode", 0, 10, 40, |_| {}); });
    let r = b.into_profiling_data().perform_analysis();
    let q = r.query_data.iter().find(|q| q.label == "q").unwrap();
    assert_eq!(q.incremental_load_time.as_nanos(), 70);
    assert_eq!(q.self_time.as_nanos(), 70);
}
""", "an activity of another kind nested in the loading of a cached result", "the nested time is counted as load time too", deps="measureme analyzeme")

S("c19-thread-span", "C19", [(A, "                    thread.start = std::cmp::min(thread.start, start);", "                    if thread.stack.is_empty() {\n                        thread.start = start;\n                    }")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    // two independent intervals of one thread, the later one written first
    b.interval("Query", "late", 0, 50, 60, |_| {});
    b.interval("Query", "early", 0, 10, 20, |_| {});
    let r = b.into_profiling_data().perform_analysis();
    assert_eq!(r.total_time.as_nanos(), 50);
}
""", "independent intervals of one thread recorded in another order than they ran", "the total time covers only a part of the thread", deps="measureme analyzeme")

S("c20-label-separator", "C20", [(SC, "            let new_stack_id_len = thread.stack_id.len() - (popped.label.len() + 1);\n            thread.stack_id.truncate(new_stack_id_len);", "            debug_assert!(thread.stack_id.ends_with(&popped.label[..]));\n            let new_stack_id_len = thread.stack_id.rfind(';').unwrap();\n            thread.stack_id.truncate(new_stack_id_len);")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    b.interval("Query", "outer", 0, 0, 100, |b| {
        b.interval("Query", "second", 0, 10, 20, |_| {});
        b.interval("Query", "[u8; 4]", 0, 30, 50, |_| {});
    });
    let s = collapse_stacks(&b.into_profiling_data());
    assert_eq!(s.get("rustc;outer;second"), Some(&10), "{:?}", s);
}
""", "a label that itself contains a semicolon, popped from the stack before another event", "stacks keep a part of a label that is not among their events", deps="measureme analyzeme")

S("c20-gap-threads", "C20", [(SC, """        rustc_time += thread.end.duration_since(thread.start).unwrap().as_nanos() as u64
            - thread.total_event_time_nanos;""", """        let gaps = thread.end.duration_since(thread.start).unwrap().as_nanos() as u64
            - thread.total_event_time_nanos;
        rustc_time = cmp::max(rustc_time + gaps, thread.total_event_time_nanos.min(gaps));""")], """
use analyzeme::*;
fn main() {
    // a thread whose gaps and events are both longer than the gaps so far
    let mut b = ProfilingDataBuilder::new();
    b.interval("Query", "a", 1, 0, 10, |_| {});
    b.interval("Query", "a", 1, 30, 40, |_| {});
    b.interval("Query", "a", 2, 0, 100, |_| {});
    b.interval("Query", "a", 2, 107, 200, |_| {});
    let s = collapse_stacks(&b.into_profiling_data());
    assert_eq!(s["rustc"], 27);
}
""", "x", "x", deps="measureme analyzeme") if 0 else None

DIFFJSON = """
use std::process::Command;
fn q(label: &str, t: u64) -> String {
    let d = |n: u64| format!("{{\\"secs\\":{},\\"nanos\\":{}}}", n / 1_000_000_000, n % 1_000_000_000);
    format!("{{\\"label\\":\\"{}\\",\\"time\\":{},\\"self_time\\":{},\\"number_of_cache_misses\\":1,\\"number_of_cache_hits\\":0,\\"invocation_count\\":1,\\"blocked_time\\":{},\\"incremental_load_time\\":{},\\"incremental_hashing_time\\":{}}}", label, d(t), d(t), d(0), d(0), d(0))
}
fn file(name: &str, qs: &[String]) {
    std::fs::write(name, format!("{{\\"query_data\\":[{}],\\"artifact_sizes\\":[],\\"total_time\\":{{\\"secs\\":0,\\"nanos\\":100}}}}", qs.join(","))).unwrap();
}
fn run(args: &[&str]) -> String {
    let bin = std::env::var("REPO_BIN").unwrap() + "/summarize";
    let o = Command::new(bin).args(args).output().unwrap();
    assert!(o.status.success(), "{:?}", o);
    String::from_utf8(o.stdout).unwrap()
}
"""
S("c22-order-signed", "C22", [(SD, "query_data.sort_by(|l, r| r.self_time.duration.cmp(&l.self_time.duration));", "query_data.sort_by(|l, r| r.self_time.cmp(&l.self_time));")], DIFFJSON + """
fn main() {
    file("base.json", &[q("small", 100), q("faster", 900)]);
    file("change.json", &[q("small", 150), q("faster", 200)]);
    let o = run(&["diff", "base.json", "change.json"]);
    assert!(o.find("faster").unwrap() < o.find("small").unwrap(), "{}", o);
}
""", "a label that got faster by more than another got slower", "the largest differences are not listed first when they are negative")
S("c22-exclude-prefix", "C22", [(SM, "let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));", "let exclude = opt.exclude.iter().any(|e| {\n            query_data.label.match_indices(&e[..]).next().map_or(false, |(i, _)| i == 0 || query_data.label.is_char_boundary(i) && !query_data.label.as_bytes()[i - 1].is_ascii_alphanumeric())\n        });")], DIFFJSON + """
fn main() {
    file("base.json", &[q("typeck", 100), q("mir_borrowck", 900)]);
    file("change.json", &[q("typeck", 150), q("mir_borrowck", 200)]);
    let o = run(&["diff", "base.json", "change.json", "-e", "borrow", "-e", "eck"]);
    assert!(!o.contains("typeck") && !o.contains("borrowck"), "{}", o);
}
""", "an excluded text that occurs in a label inside a word", "entries that should be left out are shown")
S("c22-hits-missing-base", "C22", [(SD, "            number_of_cache_hits: as_i64(data.number_of_cache_hits)" if 0 else "", "")], "", "", "") if 0 else None

S("c24-zero-share", "C24", [(SM, "        if curr_percent < percent_above {", "        if curr_percent <= percent_above {")], WRITER + """
use std::process::Command;
fn main() {
    let p = P::new("run");
    p.interval("Query", "q_inner", 0, 100, 900);
    p.interval("Query", "q_outer", 0, 100, 900);
    drop(p);
    let bin = std::env::var("REPO_BIN").unwrap() + "/summarize";
    let o = Command::new(bin).args(["summarize", "run"]).output().unwrap();
    let o = String::from_utf8(o.stdout).unwrap();
    assert!(o.contains("q_inner") && o.contains("q_outer"), "{}", o);
}
""", "an item whose time is all spent in the events it encloses", "an item with no self time is missing from the unfiltered table")

CROXD = WRITER + """
use std::process::Command;
fn run(args: &[&str]) -> Vec<serde_json::Value> {
    let bin = std::env::var("REPO_BIN").unwrap() + "/crox";
    let o = Command::new(bin).args(args).output().unwrap();
    assert!(o.status.success(), "{:?}", o);
    serde_json::from_slice(&std::fs::read("chrome_profiler.json").unwrap()).unwrap()
}
"""
S("c25-collapse-unordered", "C25", [(CX, "                    *thread_end = cmp::max(*thread_end, event_max);\n", "                    *thread_end = event_max;\n")], CROXD + """
fn main() {
    let p = P::new("run");
    let ev = |tid, s, e| p.interval("k", "l", tid, s, e);
    // thread 1 runs until 9 ms, but the event written last ended at 2 ms
    ev(1, 0, 9_000_000); ev(1, 1_000_000, 2_000_000); ev(2, 5_000_000, 20_000_000);
    drop(p);
    let v = run(&["--collapse-threads", "run"]);
    let t = |i: usize| v[i]["tid"].as_u64().unwrap();
    assert_ne!(t(0), t(2), "{:?}", v);
}
""", "a thread whose event written last is not the one that ended last", "threads that ran at the same time are merged into one", deps="measureme serde_json")
S("c25-min-duration", "C25", [(CX, "if duration.as_micros() < minimum_duration {", "if duration.as_nanos() / 1000 <= minimum_duration.saturating_sub(1) || duration.subsec_micros() == 0 && minimum_duration > 0 {")], CROXD + """
fn main() {
    let p = P::new("run");
    p.interval("k", "l", 1, 0, 2_000_000_000);
    drop(p);
    let v = run(&["--minimum-duration", "10", "run"]);
    assert!(v.iter().any(|e| e["ph"] == "X"), "{:?}", v);
}
""", "an interval of exactly a whole number of seconds with a minimum duration given", "a long interval is left out of the trace", deps="measureme serde_json")
S("c26-rounded-end", "C26", [(MV, "            system_time_to_micros_since(end, global_start_time)\n", "            system_time_to_micros_since(start, global_start_time)\n                + system_time_to_micros_since(end, start)\n")], WRITER + """
use std::process::Command;
fn main() {
    let p = P::new("run");
    p.interval("k", "l", 0, 1_000, 2_000);
    p.interval("k", "l", 0, 5_600, 7_400);
    drop(p);
    let o = Command::new(std::env::var("REPO_BIN").unwrap() + "/mmview").arg("run").output().unwrap();
    let o = String::from_utf8(o.stdout).unwrap();
    assert!(o.contains("4 \u03bcs - 6 \u03bcs"), "{}", o);
}
""", "a start and an end which are not at whole microseconds", "the printed end is one microsecond too early")
S("c27-events-after-strings", "C27", [(ME, "                    event_page_emitted = true;", "                    event_page_emitted = page_start == 0;")], """
use std::process::Command;
fn put(out: &mut Vec<u8>, tag: u8, data: &[u8]) { out.push(tag); out.extend((data.len() as u32).to_le_bytes()); out.extend(data); }
fn main() {
    let mut f = b"MMPD".to_vec(); f.extend(9u32.to_le_bytes());
    let mut want = f.clone();
    put(&mut f, 1, b"strings"); put(&mut f, 0, b"event page one"); put(&mut f, 0, b"event page two"); put(&mut f, 2, b"index");
    put(&mut want, 1, b"strings"); put(&mut want, 0, b"event page one"); put(&mut want, 2, b"index");
    std::fs::write("run.mm_profdata", &f).unwrap();
    let o = Command::new(std::env::var("REPO_BIN").unwrap() + "/mmedit").args(["truncate", "run.mm_profdata"]).output().unwrap();
    assert!(o.status.success());
    assert_eq!(std::fs::read("run.truncated.mm_profdata").unwrap(), want);
}
""", "a profile whose first page is not an event page", "later event pages are kept too")
S("c29-control-char", "C29", [(PF, "            c if c < ' ' =>", "            c if c < '\\x1f' =>")], "", "", "", script="") if 0 else None
S("c14-trailing-space", "C14", [(DE, "        Ok(self.substring(start, end))", "        // padding at the end of an argument is not part of it\n        let end = end - self.full_text[start..end].iter().rev().take_while(|&&c| c == b' ').count();\n        Ok(self.substring(start, end))") ], "", "", "") if 0 else None

S("c04-truncate-short", "C04", [(ME, "            std::fs::write(output_file_name, truncated)?;", "            let mut output = std::fs::File::create(output_file_name)?;\n            std::io::Write::write(&mut output, &truncated)?;")], """
use std::process::Command;
fn main() {
    let mut f = b"MMPD".to_vec(); f.extend(9u32.to_le_bytes());
    f.push(1); f.extend(50_000u32.to_le_bytes()); f.extend(vec![7u8; 50_000]);
    std::fs::write("run.mm_profdata", &f).unwrap();
    let bin = std::env::var("REPO_BIN").unwrap() + "/mmedit";
    // the disk takes only part of the output: the size of a file is limited
    let o = Command::new("bash").args(["-c", "trap '' XFSZ; ulimit -f 8; exec $0 truncate run.mm_profdata", &bin]).output().unwrap();
    let n = std::fs::metadata("run.truncated.mm_profdata").map_or(0, |m| m.len());
    assert!(!o.status.success(), "success is reported, but only {} bytes were written", n);
    let o = Command::new(&bin).args(["truncate", "run.mm_profdata"]).output().unwrap();
    assert!(o.status.success());
    assert_eq!(std::fs::read("run.truncated.mm_profdata").unwrap(), f);
}
""", "a write that takes only part of the data (disk full, size limit)", "a truncated file is cut off and success is reported")
SER = "measureme/src/serialization.rs"
S("c04-page-short", "C04", [(SER, "            file.write_all(&bytes[..]).unwrap();", "            file.write(&bytes[..]).unwrap();")], """
use measureme::*;
use std::process::Command;
fn main() {
    if std::env::args().nth(1).is_some() {
        let p = Profiler::new("run").unwrap();
        let concrete = p.alloc_string("a string");
        p.bulk_map_virtual_to_single_concrete_string((0..3000u32).map(StringId::new_virtual), concrete);
        drop(p);
        return;
    }
    let me = std::env::current_exe().unwrap();
    let o = Command::new("bash").args(["-c", "trap '' XFSZ; ulimit -f 20; exec $0 record", me.to_str().unwrap()]).output().unwrap();
    assert!(!o.status.success(), "the recording is cut off, and nobody is told");
}
""", "the last page of a recording does not fit on the disk entirely", "the rest of the page is lost without an error")
S("c04-crox-skip", "C04", [(CX, "let data = ProfilingData::new(&file_prefix)?;", "let data = match ProfilingData::new(&file_prefix) {\n            Ok(data) => data,\n            Err(error) => {\n                eprintln!(\"{}\", error);\n                continue;\n            }\n        };")], WRITER + """
use std::process::Command;
fn main() {
    let p = P::new("good");
    p.interval("k", "l", 0, 1_000, 2_000);
    drop(p);
    std::fs::write("bad.mm_profdata", b"MMPD\x01\0\0\0").unwrap();
    let bin = std::env::var("REPO_BIN").unwrap() + "/crox";
    let o = Command::new(&bin).arg("good").output().unwrap();
    assert!(o.status.success());
    let o = Command::new(&bin).args(["good", "bad"]).output().unwrap();
    assert!(!o.status.success(), "one of the profiles was left out, and success is reported");
}
""", "one of several profiles cannot be read", "the trace is incomplete and success is reported")
S("c16-stem-extension", "C16", [(PD, "        let paged_path = path_stem.with_extension(FILE_EXTENSION);", "        let mut paged_path = path_stem.to_path_buf();\n        if paged_path.extension().is_none() {\n            paged_path.set_extension(FILE_EXTENSION);\n        }")], WRITER + """
fn main() {
    let p = P::new("run-1");
    p.interval("k", "l", 0, 1_000, 2_000);
    drop(p);
    std::fs::copy("run-1.mm_profdata", "run.mm_profdata").unwrap();
    assert_eq!(analyzeme::ProfilingData::new(std::path::Path::new("run-1")).unwrap().num_events(), 1);
    assert_eq!(analyzeme::ProfilingData::new(std::path::Path::new("run-1.mm_profdata")).unwrap().num_events(), 1);
    assert_eq!(analyzeme::ProfilingData::new(std::path::Path::new("run.events")).expect("the profile of this stem").num_events(), 1);
}
""", "a stem given with another extension, such as one of the old format's files", "the profile is not found", deps="measureme analyzeme")
