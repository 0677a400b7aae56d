MSER = "measureme/src/serialization.rs"; MPRO = "measureme/src/profiler.rs"; MST = "measureme/src/stringtable.rs"
WATCH = """
fn watched<F: FnOnce() + Send + 'static>(f: F) {
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); s.send(()).unwrap(); });
    if r.recv_timeout(std::time::Duration::from_secs(30)).is_err() { eprintln!("stuck"); std::process::exit(1); }
}
"""
S("c05-callback-storage", "C05", [(MSER, "            write(&mut bytes[..]);\n            return self.write_bytes_atomic(&bytes[..]);", """            {
                // Nothing else can make use of the file before the data is complete.
                let _file = self.shared_state.0.lock();
                write(&mut bytes[..]);
            }
            return self.write_bytes_atomic(&bytes[..]);""")], """
use measureme::{PageTag, SerializationSinkBuilder};
""" + WATCH + """
fn main() {
    watched(|| {
        let b = SerializationSinkBuilder::new_in_memory();
        let x = b.new_sink(PageTag::Events);
        let y = b.new_sink(PageTag::StringData);
        let n = 300 * 1024;
        x.write_atomic(n, |bytes| {
            bytes.iter_mut().for_each(|b| *b = 7);
            // a full page of another stream of the same file
            y.write_bytes_atomic(&vec![1; n]);
        });
        assert_eq!(y.into_bytes(), vec![1; n]);
        assert_eq!(x.into_bytes(), vec![7; n]);
    });
}
""", "a write larger than a page whose callback writes out a page of another stream of the same file", "the callback runs with the file locked: it deadlocks")
S("c05-flush-order", "C05", [(MSER, """        let mut data = self.0.data.lock();
        let SerializationSinkInner {
            ref mut buffer,
            addr: _,
        } = *data;

        // First flush the local buffer.
        self.0.flush(buffer);

        // Then flush the backing store.
        self.0.shared_state.0.lock().flush()?;

        Ok(())""", """        // First flush the local buffer.
        self.0.flush(&mut self.0.data.lock().buffer);

        // Then flush the backing store, unless there is data again.
        let mut file = self.0.shared_state.0.lock();
        if self.0.data.lock().buffer.is_empty() {
            file.flush()?;
        }

        Ok(())""")], """
use measureme::{PageTag, SerializationSinkBuilder};
use std::io::Write;
use std::sync::Arc;
""" + WATCH + """
fn main() {
    watched(|| {
        let b = SerializationSinkBuilder::new_in_memory();
        let x = Arc::new(b.new_sink(PageTag::Events));
        let ts: Vec<_> = (0..4).map(|i| {
            let x = x.clone();
            std::thread::spawn(move || for _ in 0..20_000 {
                if i % 2 == 0 { x.as_std_write().flush().unwrap(); } else { x.write_bytes_atomic(&[3; 20_000]); }
            })
        }).collect();
        for t in ts { t.join().unwrap(); }
    });
}
""", "one thread flushes a stream through its writer while another one writes a page of it", "the locks of the stream and of the file are taken in both orders: deadlock")
S("c07-virtual-upper", "C07", [(MST, "        let id = id.into();\n        assert!(id <= MAX_USER_VIRTUAL_STRING_ID);", "        let id = id.into();\n        assert!(id as u32 <= MAX_USER_VIRTUAL_STRING_ID as u32);")], """
use measureme::StringId;
fn accepts(id: u64) -> bool {
    std::panic::catch_unwind(|| StringId::new_virtual(id)).is_ok()
}
fn main() {
    for id in [0u64, 1, 99_999_999, 100_000_000] { assert!(accepts(id)); }
    for id in [100_000_001u64, u32::MAX as u64, 1 << 32, (1 << 32) + 5, (7 << 32) + 100_000_000, u64::MAX] { assert!(!accepts(id), "{}", id); }
}
""", "a user virtual id of 2^32 or more whose lower 32 bits are small", "the id is accepted although it lies beyond the reserved range")
S("c08-detached-thread16", "C08", [(MPRO, """            event_kind: timing.event_kind,
            thread_id: timing.thread_id,
            start_count: timing.start_count,
        });""", """            event_kind: timing.event_kind,
            thread_id: timing.thread_id.into(),
            start_count: timing.start_count,
        });"""), (MPRO, """pub struct DetachedTiming {
    event_id: EventId,
    event_kind: StringId,
    thread_id: u32,""", """pub struct DetachedTiming {
    event_id: EventId,
    event_kind: StringId,
    thread_id: u16,"""), (MPRO, """        DetachedTiming {
            event_id,
            event_kind,
            thread_id,""", """        DetachedTiming {
            event_id,
            event_kind,
            thread_id: thread_id as u16,""")], """
use measureme::{Profiler, EventId};
fn main() {
    for t in [0u32, 5, 65535, 65536, 1_000_000, u32::MAX] {
        let p = Profiler::new("run").unwrap();
        let k = p.alloc_string("kind");
        let e = EventId::from_label(p.alloc_string("label"));
        let d = p.start_recording_interval_event_detached(k, e, t);
        p.finish_recording_interval_event(d);
        drop(p);
        let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
        assert_eq!(d.iter().next().unwrap().thread_id, t);
    }
}
""", "a detached timing of a thread whose id does not fit in 16 bits", "the event is recorded with another thread id", "measureme analyzeme")
S("c09-unwinding", "C09", [(MPRO, """    fn drop(&mut self) {
        let raw_event""", """    fn drop(&mut self) {
        // Don't make things worse when something has already gone wrong.
        if std::thread::panicking() {
            return;
        }
        let raw_event""")], """
use measureme::{Profiler, EventId};
fn main() {
    let p = Profiler::new("run").unwrap();
    let k = p.alloc_string("kind");
    let e = EventId::from_label(p.alloc_string("label"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _outer = p.start_recording_interval_event(k, e, 1);
        let _inner = p.start_recording_interval_event(k, e, 1);
        panic!("boom");
    }));
    assert!(r.is_err());
    drop(p);
    let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
    assert_eq!(d.iter().count(), 2);
}
""", "an interval guard dropped while its thread unwinds from a panic", "the interval is not recorded", "measureme analyzeme")
S("c09-override-invalid", "C09", [(MPRO, """        self.event_id = event_id;
        // Let's""", """        if event_id != EventId::INVALID {
            self.event_id = event_id;
        }
        // Let's""")], """
use measureme::{Profiler, EventId};
fn main() {
    let p = Profiler::new("run").unwrap();
    let k = p.alloc_string("kind");
    let e = EventId::from_label(p.alloc_string("first"));
    let f = EventId::from_label(p.alloc_string("second"));
    p.start_recording_interval_event(k, e, 1).finish_with_override_event_id(f);
    p.start_recording_interval_event(k, e, 1).finish_with_override_event_id(EventId::INVALID);
    drop(p);
    let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
    let ls: Vec<_> = d.iter_full().map(|e| e.label.to_string()).collect();
    assert_eq!(ls, ["second", "<unknown>"]);
}
""", "finishing an interval with the invalid id", "the event keeps the id it was started with", "measureme analyzeme")
S("c11-two-writes", "C11", [(MST, """        let size_in_bytes = s.serialized_size();
        let addr = self""", """        let size_in_bytes = s.serialized_size();
        if size_in_bytes > 64 * 1024 {
            // Don't copy long strings to the buffer, just their ends.
            let mut bytes = vec![0u8; size_in_bytes];
            s.serialize(&mut bytes);
            let (text, end) = bytes.split_at(size_in_bytes - 1);
            let addr = self.data_sink.write_bytes_atomic(text);
            self.data_sink.write_bytes_atomic(end);
            return StringId::from_addr(addr);
        }
        let addr = self""")], """
use measureme::{Profiler, EventId};
use std::sync::Arc;
fn main() {
    for _ in 0..5 {
        let p = Arc::new(Profiler::new("run").unwrap());
        let k = p.alloc_string("kind");
        let go = Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4u8).map(|i| {
            let (p, go) = (p.clone(), go.clone());
            std::thread::spawn(move || {
                let text = String::from_utf8(vec![b'a' + i; 70_000]).unwrap();
                go.wait();
                for _ in 0..200 {
                    let e = EventId::from_label(p.alloc_string(&text[..]));
                    p.record_integer_event(k, e, i as u32, 1);
                }
            })
        }).collect();
        for t in ts { t.join().unwrap(); }
        drop(p);
        let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
        assert_eq!(d.iter().count(), 800);
        for e in d.iter_full() {
            assert!(e.label.len() == 70_000 && e.label.bytes().all(|c| c == b'a' + e.thread_id as u8));
        }
    }
}
""", "two threads storing strings of over 64 KiB at the same time", "another string may come between a string and its terminator", "measureme analyzeme")
S("c13-ff-in-reference", "C13", [("decodeme/src/stringtable.rs", "first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE", "first_byte == STRING_REF_TAG && terminator_pos <= STRING_REF_ENCODED_SIZE")], """
use measureme::{Profiler, EventId, EventIdBuilder, StringComponent};
fn main() {
    let p = Profiler::new("run").unwrap();
    let k = p.alloc_string("kind");
    let b = EventIdBuilder::new(&p);
    let mut want = vec![];
    for i in 0..400 {
        let s = format!("s{}", i);
        let id = p.alloc_string(&s[..]);
        // one reference, and a reference with text behind it
        let one = p.alloc_string(&[StringComponent::Ref(id)]);
        let two = p.alloc_string(&[StringComponent::Ref(id), StringComponent::Value("-tail")]);
        for (id, text) in [(id, s.clone()), (one, s.clone()), (two, s + "-tail")] {
            p.record_integer_event(k, b.from_label(id), 0, 1);
            let _ = EventId::from_label(id);
            want.push(text);
        }
    }
    drop(p);
    let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
    let got: Vec<_> = d.iter_full().map(|e| e.label.to_string()).collect();
    assert_eq!(got, want);
}
""", "a composite string that begins with a reference to a string whose id has a byte 0xFF in it", "only the referenced string is decoded, the rest of the text is lost", "measureme analyzeme")
S("c15-older-stream", "C15", [("measureme/src/file_header.rs", "    if file_format_version != CURRENT_FILE_FORMAT_VERSION {", "    // Files of older versions are told apart before they get here.\n    if file_format_version > CURRENT_FILE_FORMAT_VERSION {")], """
use measureme::file_header::*;
fn main() {
    for magic in [FILE_MAGIC_TOP_LEVEL, FILE_MAGIC_EVENT_STREAM, FILE_MAGIC_STRINGTABLE_DATA, FILE_MAGIC_STRINGTABLE_INDEX] {
        for v in [0, 7, 8, 9, 10, u32::MAX] {
            let mut b = magic.to_vec();
            b.extend_from_slice(&v.to_le_bytes());
            assert_eq!(verify_file_header(&b, magic, None, "x").is_ok(), v == CURRENT_FILE_FORMAT_VERSION, "{}", v);
        }
    }
}
""", "a stream whose header states an older version than its file", "the stream is read as if it was of the current version")
S("c28-name-prefix", "C28", [("measureme/src/counters.rs", "            WallTime::NAME => Counter::WallTime(WallTime::new()),", "            // Allow for the usual shorthand.\n            name if WallTime::NAME.starts_with(name) => Counter::WallTime(WallTime::new()),")], """
use measureme::counters::Counter;
fn main() {
    assert!(matches!(Counter::by_name("wall-time"), Ok(Counter::WallTime(_))));
    for n in ["", "w", "wall", "wall-tim", "wall-time ", "Wall-time", "walltime", "instructions", "x"] {
        assert!(Counter::by_name(n).is_err(), "{:?}", n);
    }
}
""", "a name that is only the beginning of a counter's name (or the empty name)", "an unknown counter name gives a counter")
S("c29-start-millis", "C29", [(MPRO, """                .unwrap()
                .as_nanos(),
            std::process::id(),""", """                .unwrap()
                .as_millis()
                * 1_000_000,
            std::process::id(),""")], """
use measureme::Profiler;
use std::time::SystemTime;
fn main() {
    for _ in 0..100 {
        let before = SystemTime::now();
        drop(Profiler::new("run").unwrap());
        let d = analyzeme::ProfilingData::new(std::path::Path::new("run")).unwrap();
        let t = d.metadata().start_time;
        assert!(before <= t && t <= SystemTime::now());
    }
}
""", "a profiler created while the clock is not at a full millisecond", "the start time read back lies before the profiler's creation", "measureme analyzeme")
S("c33-skip-default", "C33", [("analyzeme/src/analysis.rs", "    pub number_of_cache_hits: usize,\n    pub invocation_count: usize,\n    pub blocked_time: Duration,", "    pub number_of_cache_hits: usize,\n    pub invocation_count: usize,\n    #[serde(default, skip_serializing)]\n    pub blocked_time: Duration,")], """
use analyzeme::{AnalysisResults, QueryData};
use std::time::Duration;
fn main() {
    let mut q = QueryData::new("x".to_string());
    q.time = Duration::from_nanos(1); q.self_time = Duration::from_nanos(2); q.blocked_time = Duration::from_nanos(3);
    q.incremental_load_time = Duration::from_nanos(4); q.incremental_hashing_time = Duration::from_nanos(5);
    q.number_of_cache_hits = 6; q.number_of_cache_misses = 7; q.invocation_count = 8;
    let r = AnalysisResults { query_data: vec![q], artifact_sizes: vec![], total_time: Duration::from_nanos(9) };
    let s: AnalysisResults = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
    assert_eq!(format!("{:?}", s.query_data), format!("{:?}", r.query_data));
}
""", "results with blocked time written out and read back", "the blocked time is lost", "analyzeme serde_json")
