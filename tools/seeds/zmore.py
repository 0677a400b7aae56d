ST = "measureme/src/stringtable.rs"; DE = "decodeme/src/event.rs"; PL = "decodeme/src/event_payload.rs"; DL = "decodeme/src/lib.rs"; PDA = "analyzeme/src/profiling_data.rs"
EI = "measureme/src/event_id.rs"
S("c12-bulk-addr32", "C12", [(ST, """        let to_addr_le = concrete_id.to_addr().0.to_le();

        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();
""", """        // The address occupies the low half of its word, user ids never need more.
        let words = [concrete_id.to_addr().0 as u32, 0];

        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [
                    id.to_le(),
                    (u64::from(words[1]) << 32 | u64::from(words[0])).to_le(),
                ]
            })
            .collect();
""")], """
use measureme::*;
use std::sync::Arc;
fn main() {
    for addr in [8u64, 1 << 20, (1 << 32) - 1, 1 << 32, (5 << 32) + 77] {
        let b = SerializationSinkBuilder::new_in_memory();
        let (d, x) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
        let t = StringTableBuilder::new(d, x.clone()).unwrap();
        let id = StringId::new(addr + 100_000_003);
        t.bulk_map_virtual_to_single_concrete_string([7u64, 8, 9].into_iter().map(|i| StringId::new_virtual(i)), id);
        t.map_virtual_to_concrete_string(StringId::new_virtual(11u64), id);
        drop(t);
        let bytes = Arc::try_unwrap(x).ok().unwrap().into_bytes();
        let entries: Vec<(u64, u64)> = bytes[8..].chunks(16).map(|e| (u64::from_le_bytes(e[..8].try_into().unwrap()), u64::from_le_bytes(e[8..].try_into().unwrap()))).collect();
        assert_eq!(entries, [(7, addr), (8, addr), (9, addr), (11, addr)]);
    }
}
""", "string data beyond 4 GiB and a bulk mapping to a string up there", "the bulk-mapped ids stand for whatever lies 4 GiB further down")

S("c14-del", "C14", [(DE, """            .any(u8::is_ascii_control)""", """            .any(|&x| x < b' ')""")], WRITER + """
fn main() {
    for (text, label, n) in [("ab\\u{7f}", "<parse error>", 0), ("a\\u{1}b", "<parse error>", 0), ("ok\\u{1e}x\\u{7f}y", "ok", 0), ("ok\\u{1e}x\\ty", "ok", 1)] {
        let p = P::new("p");
        p.interval("k", text, 0, 1, 2);
        drop(p);
        let d = decodeme::EventDecoder::new(std::fs::read("p.mm_profdata").unwrap(), None).unwrap();
        let e = d.decode_full_event(0);
        assert_eq!((&e.label[..], e.additional_data.len()), (label, n));
    }
}
""", "a label or argument that holds the one control character above the space (DEL)", "it is taken for regular text instead of being reported", deps="measureme decodeme parking_lot")

S("c14-args-spill", "C14", [(EI, """        for arg in args {
            parts.push(StringComponent::Value(SEPARATOR_BYTE));
            parts.push(StringComponent::Ref(*arg));
        }

        EventId(self.profiler.alloc_string(&parts[..]))""", """        for arg in args {
            // Share the text of a preceding, identical pair of arguments.
            if parts.len() > parts.inline_size() && args[args.len() - 1] == *arg && args[0] == *arg {
                continue;
            }
            parts.push(StringComponent::Value(SEPARATOR_BYTE));
            parts.push(StringComponent::Ref(*arg));
        }

        EventId(self.profiler.alloc_string(&parts[..]))""")], """
use measureme::*;
fn main() {
    for n in 0..9usize {
        for pattern in 0..1usize << n {
            let name = format!("p{}_{}", n, pattern);
            let p = Profiler::new(&name).unwrap();
            let (a, b, l, k) = (p.alloc_string("a"), p.alloc_string("b"), p.alloc_string("label"), p.alloc_string("kind"));
            let bit = |i: usize| pattern >> i & 1 == 1;
            let args: Vec<StringId> = (0..n).map(|i| if bit(i) { a } else { b }).collect();
            let id = EventIdBuilder::new(&p).from_label_and_args(l, &args);
            p.record_instant_event(k, id, 0);
            drop(p);
            let file = name + ".mm_profdata";
            let d = decodeme::EventDecoder::new(std::fs::read(&file).unwrap(), None).unwrap();
            std::fs::remove_file(&file).unwrap();
            let e = d.decode_full_event(0);
            assert_eq!(e.label, "label");
            assert_eq!(e.additional_data.iter().map(|x| x.to_string()).collect::<Vec<_>>(), (0..n).map(|i| (if bit(i) { "a" } else { "b" }).to_string()).collect::<Vec<_>>());
        }
    }
}
""", "four or more arguments of which the first, the last and one beyond the third are the same", "that argument is missing from the event", deps="measureme decodeme")

S("c21-contains-instant", "C21", [(PL, """                    self_start <= other_t && other_t <= self_end
                }""", """                    self_start <= other_t && (other_t < self_end || self_start == self_end)
                }""")], """
use decodeme::event_payload::{EventPayload as P, Timestamp as T};
use std::time::{Duration, SystemTime};
fn main() {
    let t = |n: u64| SystemTime::UNIX_EPOCH + Duration::from_nanos(n);
    let iv = |a, b| P::Timestamp(T::Interval { start: t(a), end: t(b) });
    for a in 0..4 { for b in a..4 { for c in 0..4 {
        assert_eq!(iv(a, b).contains(&P::Timestamp(T::Instant(t(c)))), a <= c && c <= b, "{} {} {}", a, b, c);
        for d in c..4 { assert_eq!(iv(a, b).contains(&iv(c, d)), a <= c && d <= b); }
    } } }
}
""", "an instant event recorded at the very end of an interval of non-zero length", "it is no longer nested in the interval", deps="decodeme")

S("c18-future-start", "C18", [(PL, """            let end = start_time + Duration::from_nanos(raw_event.end_value());
            Timestamp::Interval { start, end }""", """            // Most intervals are short, so don't go through the wide arithmetic again.
            let length = raw_event.end_value().wrapping_sub(raw_event.start_value()) as u32;
            let end = start + Duration::from_nanos(u64::from(length));
            Timestamp::Interval { start, end }""")], WRITER + """
use decodeme::event_payload::{EventPayload, Timestamp};
fn main() {
    let spans = [(0u64, 0u64), (5, 9), (7, 7 + (1 << 31)), (3, 3 + (1 << 32)), (1, 90_000_000_000)];
    let p = P::new("p");
    for (i, (s, e)) in spans.iter().enumerate() { p.interval("k", "l", i as u32, *s, *e); }
    drop(p);
    let d = decodeme::EventDecoder::new(std::fs::read("p.mm_profdata").unwrap(), None).unwrap();
    let t0 = d.metadata().start_time;
    for (i, (s, e)) in spans.iter().enumerate() {
        let full = d.decode_full_event(i);
        assert_eq!(full.payload, d.decode_lightweight_event(i).payload);
        let ns = |t: std::time::SystemTime| t.duration_since(t0).unwrap().as_nanos() as u64;
        match full.payload {
            EventPayload::Timestamp(Timestamp::Interval { start, end }) => assert_eq!((ns(start), ns(end)), (*s, *e)),
            _ => panic!(),
        }
    }
}
""", "an interval of 2^32 ns (4.3 s) or more", "the end of the interval is decoded earlier than recorded", deps="measureme decodeme")

S("c32-empty-interval", "C32", [(PDA, """            RawEvent::new_interval(event_kind, event_id, thread_id, start_nanos, end_nanos);
""", """            if start_nanos < end_nanos {
                RawEvent::new_interval(event_kind, event_id, thread_id, start_nanos, end_nanos)
            } else {
                assert!(start_nanos == end_nanos);
                RawEvent::new_instant(event_kind, event_id, thread_id, start_nanos)
            };
""")], """
use analyzeme::ProfilingDataBuilder;
fn main() {
    for (s, e) in [(0u64, 1u64), (5, 5), (0, 0), (7, 100)] {
        let mut b = ProfilingDataBuilder::new();
        b.interval("kind", "outer", 3, 0, 200, |b| { b.interval("kind", "label", 3, s, e, |_| {}); });
        let p = b.into_profiling_data();
        let all: Vec<_> = p.iter_full().collect();
        assert_eq!(all.len(), 2);
        assert_eq!(all[0].label, "label");
        assert_eq!(all[0].thread_id, 3);
        assert!(all[0].payload.is_interval());
        assert_eq!(all[0].duration().unwrap().as_nanos() as u64, e - s);
    }
}
""", "an interval event added to the builder whose start is its end", "it becomes an instant event", deps="analyzeme")

S("c30-bulk-claimed", "C30", [(ST, """        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();

        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();
""", """        let num_bytes = virtual_ids.len() * std::mem::size_of::<MappingEntry>();

        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();

""")], """
use measureme::*;
use std::sync::Arc;
struct Upto(u64, usize);
impl Iterator for Upto {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> { if self.0 == 3 { return None; } self.0 += 1; Some(StringId::new_virtual(self.0)) }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
}
impl ExactSizeIterator for Upto { fn len(&self) -> usize { self.1 } }
fn main() {
    for claim in [3usize, 2, 40] {
        let b = SerializationSinkBuilder::new_in_memory();
        let (d, x) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
        let t = StringTableBuilder::new(d, x.clone()).unwrap();
        let id = t.alloc("text");
        t.bulk_map_virtual_to_single_concrete_string(Upto(0, claim), id);
        drop(t);
        let bytes = Arc::try_unwrap(x).ok().unwrap().into_bytes();
        assert_eq!(bytes.len(), 8 + 3 * 16, "claiming {}", claim);
    }
}
""", "an iterator of ids whose claimed length is not the number of ids it yields", "memory behind the collected entries is read and written to the index stream")

S("c30-bulk-capacity", "C30", [(ST, """        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();
        let byte_ptr = serialized.as_ptr() as *const u8;
""", """        // The buffer holds whole entries only.
        let num_bytes = serialized.capacity() * std::mem::size_of::<MappingEntry>();
        let byte_ptr = serialized.as_ptr() as *const u8;
""")], """
use measureme::*;
use std::sync::Arc;
struct Ids(Vec<u64>);
impl Iterator for Ids {
    type Item = StringId;
    fn next(&mut self) -> Option<StringId> { self.0.pop().map(StringId::new_virtual) }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.0.len(), Some(self.0.len())) }
}
impl ExactSizeIterator for Ids {}
fn main() {
    for n in 0..9usize {
        let b = SerializationSinkBuilder::new_in_memory();
        let (d, x) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
        let t = StringTableBuilder::new(d, x.clone()).unwrap();
        let id = t.alloc("text");
        t.bulk_map_virtual_to_single_concrete_string(Ids((1..=n as u64).collect()), id);
        drop(t);
        let bytes = Arc::try_unwrap(x).ok().unwrap().into_bytes();
        assert_eq!(bytes.len(), 8 + n * 16, "{} ids", n);
    }
}
""", "fewer ids than the smallest buffer holds, from an iterator that is not one of the standard library's", "uninitialised memory is read and written to the index stream as extra mappings")

S("c30-unwritten-page", "C30", [("measureme/src/serialization.rs", """        buffer.resize(buf_end, 0u8);
        write(""", """        // `write` fills the bytes in, so there is no need to clear them first.
        buffer.reserve(num_bytes);
        unsafe { buffer.set_len(buf_end) };
        write(""")], """
use measureme::*;
fn main() {
    let sink = SerializationSinkBuilder::new_in_memory().new_sink(PageTag::Events);
    for _ in 0..3 {
        sink.write_atomic(200_000, |b| b.fill(0xaa));
        sink.write_atomic(100_000, |b| { assert!(b.iter().all(|x| *x == 0), "bytes nobody has written"); b.fill(0xbb) });
    }
}
""", "a writer that looks at, or leaves alone, part of the bytes it is given after a page was flushed", "stale or uninitialised memory is handed out and written to the stream")
