MV = "mmview/src/main.rs"; ME = "mmedit/src/main.rs"; SC = "analyzeme/src/stack_collapse.rs"; DP = "decodeme/src/event_payload.rs"; TBL = "decodeme/src/stringtable.rs"; SRL = "measureme/src/serialization.rs"; DLIB = "decodeme/src/lib.rs"
S("c18-empty-interval", "C18", [(DP, "        if raw_event.is_instant() {\n", "        // an interval that takes no time is a point in time\n        if raw_event.is_instant() || raw_event.start_value() == raw_event.end_value() {\n")], WRITER + """
fn main() {
    let p = P::new("run");
    p.interval("k", "l", 0, 1_000, 1_000);
    p.interval("k", "l", 0, 1_000, 1_001);
    drop(p);
    let d = decodeme::EventDecoder::new(std::fs::read("run.mm_profdata").unwrap(), None).unwrap();
    for i in 0..2 {
        assert!(d.decode_full_event(i).payload.is_interval(), "event {}", i);
        assert!(d.decode_lightweight_event(i).payload.is_interval(), "event {}", i);
    }
}
""", "an interval that starts and ends at the same clock reading", "it is decoded as an instant", deps="measureme decodeme parking_lot")
S("c18-lightweight-thread", "C18", [(DLIB, "            payload,\n            thread_id: raw_event.thread_id,\n        }\n    }\n}", "            payload,\n            thread_id: raw_event.thread_id & (u32::MAX >> 1),\n        }\n    }\n}")], WRITER + """
fn main() {
    let p = P::new("run");
    for t in [0u32, 7, 1 << 30, 1 << 31, u32::MAX] { p.interval("k", "l", t, 1, 2); }
    drop(p);
    let d = decodeme::EventDecoder::new(std::fs::read("run.mm_profdata").unwrap(), None).unwrap();
    for i in 0..5 { assert_eq!(d.decode_full_event(i).thread_id, d.decode_lightweight_event(i).thread_id); }
}
""", "a thread id with its highest bit set", "the lightweight form names another thread than the record", deps="measureme decodeme parking_lot")
S("c20-wide-label", "C20", [(SC, "            let new_stack_id_len = thread.stack_id.len() - (popped.label.len() + 1);", "            let new_stack_id_len = thread.stack_id.len() - (popped.label.chars().count() + 1);")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    b.interval("Query", "outer", 0, 0, 100, |b| {
        b.interval("Query", "second", 0, 10, 20, |_| {});
        b.interval("Query", "gr\\u{f6}\\u{df}e", 0, 30, 50, |_| {});
    });
    let s = collapse_stacks(&b.into_profiling_data());
    assert_eq!(s.get("rustc;outer;second"), Some(&10), "{:?}", s);
}
""", "a label that is not plain ASCII, popped from the stack before another event", "stacks keep a part of the label that was popped", deps="measureme analyzeme")
S("c20-thread-low-half", "C20", [(SC, "            .entry(current_event.thread_id)\n", "            .entry(current_event.thread_id as u16)\n")], """
use analyzeme::*;
fn main() {
    let mut b = ProfilingDataBuilder::new();
    b.interval("Query", "inner", 5, 10, 20, |_| {});
    b.interval("Query", "outer", 65536 + 5, 0, 100, |_| {});
    let s = collapse_stacks(&b.into_profiling_data());
    assert_eq!(s.get("rustc;inner"), Some(&10), "{:?}", s);
}
""", "two threads whose ids differ by a multiple of 65536", "one thread's events are stacked upon those of another", deps="measureme analyzeme")
S("c12-read-addr32", "C12", [(TBL, "        Addr(u64::from_le_bytes(bytes[8..16].try_into().unwrap())),", "        Addr(u64::from(u32::from_le_bytes(\n            bytes[8..12].try_into().unwrap(),\n        ))),")], """
use measureme::*;
use std::sync::Arc;
fn main() {
    let b = SerializationSinkBuilder::new_in_memory();
    let (d, x) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
    let t = StringTableBuilder::new(d.clone(), x.clone()).unwrap();
    let id = t.alloc("low");
    t.map_virtual_to_concrete_string(StringId::new_virtual(1u64), id);
    // a string four gigabytes further up; its data are not part of this file
    t.map_virtual_to_concrete_string(StringId::new_virtual(2u64), StringId::new(id.as_u64() + (1 << 32)));
    drop(t);
    let d = Arc::try_unwrap(d).ok().unwrap().into_bytes();
    let x = Arc::try_unwrap(x).ok().unwrap().into_bytes();
    let t = decodeme::stringtable::StringTable::new(d, x, None).unwrap();
    assert_eq!(&t.get(StringId::new_virtual(1u64)).to_string(), "low");
    std::panic::set_hook(Box::new(|_| {}));
    let far = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.get(StringId::new_virtual(2u64)).to_string().to_string()));
    assert_ne!(far.ok().as_deref(), Some("low"));
}
""", "string data beyond 4 GiB", "an id mapped to a string up there reads as the one 4 GiB below", deps="measureme decodeme")
S("c03-contended-flush", "C03", [(SRL, """        let mut data = self.0.data.lock();
        let SerializationSinkInner {
            ref mut buffer,
            addr: _,
        } = *data;

        // First""", """        // Whoever is writing will fill the buffer again anyway.
        let mut data = match self.0.data.try_lock() {
            Some(data) => data,
            None => return self.0.shared_state.0.lock().flush(),
        };
        let SerializationSinkInner {
            ref mut buffer,
            addr: _,
        } = *data;

        // First""")], """
use measureme::*;
use std::io::Write;
use std::sync::{mpsc::channel, Arc};
use std::time::Duration;
fn main() {
    let f = std::fs::File::create("out").unwrap();
    let s = Arc::new(SerializationSinkBuilder::new_from_file(f).unwrap().new_sink(PageTag::Events));
    s.write_bytes_atomic(b"written before");
    let (tx, rx) = channel();
    let t = { let s = s.clone(); std::thread::spawn(move || { s.write_atomic(4, |b| { tx.send(()).unwrap(); std::thread::sleep(Duration::from_millis(700)); b.copy_from_slice(b"more"); }); }) };
    rx.recv().unwrap();
    s.as_std_write().flush().unwrap();
    let got = std::fs::read("out").unwrap();
    assert!(got.windows(14).any(|w| w == b"written before"), "{:?}", got);
    t.join().unwrap();
}
""", "another thread in the middle of a write to the same stream when it is flushed", "the flush reports success but what was buffered stays where it is")
S("c01-adapter-cut", "C01", [(SRL, "        self.0.write_bytes_atomic(buf);\n        Ok(buf.len())", "        // One page at a time.\n        self.0.write_bytes_atomic(&buf[..min(buf.len(), MAX_PAGE_SIZE)]);\n        Ok(buf.len())")], """
use measureme::*;
use std::io::Write;
fn main() {
    for n in [0usize, 10, 1 << 17, 1 << 18, (1 << 18) + 1, 700_000] {
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let s = SerializationSinkBuilder::new_in_memory().new_sink(PageTag::Events);
        s.as_std_write().write_all(&data).unwrap();
        assert!(s.into_bytes() == data, "{} bytes", n);
    }
}
""", "more than a page handed to the writer view in one piece", "the rest is reported as written but never reaches the stream")
S("c26-thread-zero", "C26", [(MV, "        if let Some(thread_id) = opt.thread_id {\n", "        if let Some(thread_id) = opt.thread_id.filter(|&id| id != 0) {\n")], WRITER + """
use std::process::Command;
fn main() {
    let p = P::new("run");
    for t in [0u32, 1, 2] { p.interval("k", &format!("of {}", t), t, 1_000, 2_000); }
    drop(p);
    for t in 0..3 {
        let o = Command::new(std::env::var("REPO_BIN").unwrap() + "/mmview").args(["-t", &t.to_string(), "run"]).output().unwrap();
        let o = String::from_utf8(o.stdout).unwrap();
        for x in 0..3 { assert_eq!(o.contains(&format!("of {}", x)), x == t, "{}", o); }
    }
}
""", "thread 0 asked for in a profile of several threads", "the events of all threads are printed")
S("c27-short-index", "C27", [(ME, "            PageTag::StringData | PageTag::StringIndex => {\n", "            // holds nothing but the header of the stream\n            PageTag::StringIndex if page_size <= FILE_HEADER_SIZE => {}\n            PageTag::StringData | PageTag::StringIndex => {\n")], """
use std::process::Command;
fn put(out: &mut Vec<u8>, tag: u8, data: &[u8]) { out.push(tag); out.extend((data.len() as u32).to_le_bytes()); out.extend(data); }
fn main() {
    let mut f = b"MMPD".to_vec(); f.extend(9u32.to_le_bytes());
    put(&mut f, 0, b"event page one"); put(&mut f, 2, b"MMSI\\x09\\0\\0\\0"); put(&mut f, 1, b"strings"); put(&mut f, 2, b"entries of the index");
    std::fs::write("run.mm_profdata", &f).unwrap();
    let o = Command::new(std::env::var("REPO_BIN").unwrap() + "/mmedit").args(["truncate", "run.mm_profdata"]).output().unwrap();
    assert!(o.status.success());
    assert_eq!(std::fs::read("run.truncated.mm_profdata").unwrap(), f);
}
""", "an index page that holds only the stream's header (it was flushed on its own)", "the page is left out and the index cannot be read any more")
