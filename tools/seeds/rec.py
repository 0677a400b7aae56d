SER = "measureme/src/serialization.rs"
EV = "measureme/src/raw_event.rs"
ST = "measureme/src/stringtable.rs"
PR = "measureme/src/profiler.rs"
ID = "measureme/src/event_id.rs"

S("c01-tail-relock", "C01", [(SER, """        // Make sure we flush the buffer before writing out any other pages.
        self.flush(buffer);

        for chunk""", """        // Make sure we flush the buffer before writing out any other pages.
        self.flush(buffer);

        // Full pages go straight to the shared storage, which has its own lock.
        if bytes_left.len() >= MAX_PAGE_SIZE {
            drop(data);
            let full = bytes_left.len() / MAX_PAGE_SIZE * MAX_PAGE_SIZE;
            bytes_left[..full]
                .chunks(MAX_PAGE_SIZE)
                .for_each(|page| self.write_page(page));
            bytes_left = &bytes_left[full..];
            data = self.data.lock();
        }
        let SerializationSinkInner { ref mut buffer, .. } = *data;

        for chunk""")], """
use measureme::*;
fn main() {
    for _ in 0..20 {
        let b = SerializationSinkBuilder::new_in_memory();
        let s = b.new_sink(PageTag::Events);
        let addrs = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|t| {
            for v in 0..4u8 {
                let (s, addrs) = (&s, &addrs);
                t.spawn(move || for _ in 0..20 {
                    let n = 600_000;
                    let a = s.write_bytes_atomic(&vec![v + 1; n]);
                    addrs.lock().unwrap().push((a.0 as usize, n, v + 1));
                });
            }
        });
        let d = s.into_bytes();
        for (a, n, v) in addrs.into_inner().unwrap() {
            assert!(d[a..a + n].iter().all(|&x| x == v), "write is not contiguous at its address");
        }
    }
}
""", "another thread writing to the same stream between a write's full pages and its remainder", "a write's bytes are split by another write and are not at the returned address")

S("c01-atomic-addr-large", "C01", [(SER, """            let mut bytes = vec![0u8; num_bytes];
            write(&mut bytes[..]);
            return self.write_bytes_atomic(&bytes[..]);""", """            let mut bytes = vec![0u8; num_bytes];
            let addr = Addr(self.data.lock().addr);
            write(&mut bytes[..]);
            self.write_bytes_atomic(&bytes[..]);
            return addr;""")], """
use measureme::*;
fn main() {
    for _ in 0..20 {
        let b = SerializationSinkBuilder::new_in_memory();
        let s = b.new_sink(PageTag::Events);
        let addrs = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|t| {
            for v in 0..4u8 {
                let (s, addrs) = (&s, &addrs);
                t.spawn(move || for _ in 0..10 {
                    let n = 262144 + 1000;
                    let a = s.write_atomic(n, |m| for x in m.iter_mut() { *x = v + 1 });
                    addrs.lock().unwrap().push((a.0 as usize, n, v + 1));
                });
            }
        });
        let d = s.into_bytes();
        for (a, n, v) in addrs.into_inner().unwrap() {
            assert!(d[a..a + n].iter().all(|&x| x == v), "data is not at its address");
        }
    }
}
""", "another thread writing while a callback fills a block larger than a page", "the returned address is the position before the other thread's write, not that of the data")

S("c02-interleaved-header", "C02", [(SER, """            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();
            file.write_all(&page_size).unwrap();
            file.write_all(&bytes[..]).unwrap();
""", """            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();
            file.write_all(&page_size).unwrap();
            if bytes.len() == MAX_PAGE_SIZE {
                // Give other streams a chance before copying a large page.
                drop(file);
                file = self.shared_state.0.lock();
            }
            file.write_all(&bytes[..]).unwrap();
""")], """
use measureme::*;
fn main() {
    let dir = std::env::current_dir().unwrap().join("c02demo");
    for round in 0..20 {
        let path = dir.join(format!("f{}", round));
        std::fs::create_dir_all(&dir).unwrap();
        let file = std::fs::File::create(&path).unwrap();
        let b = SerializationSinkBuilder::new_from_file(file).unwrap();
        let a = b.new_sink(PageTag::Events);
        let c = b.new_sink(PageTag::StringData);
        std::thread::scope(|t| {
            for (s, v) in [(&a, 1u8), (&c, 2u8)] {
                t.spawn(move || for _ in 0..20 { s.write_bytes_atomic(&vec![v; 262144 * 2]); });
            }
        });
        drop(a); drop(c); drop(b);
        let d = std::fs::read(&path).unwrap();
        let mut pos = 0;
        let mut n = [0usize; 3];
        while pos < d.len() {
            let tag = if d[pos] == 0 { 1 } else { 2 };
            let len = u32::from_le_bytes([d[pos + 1], d[pos + 2], d[pos + 3], d[pos + 4]]) as usize;
            assert!(d[pos + 5..pos + 5 + len].iter().all(|&x| x == tag as u8), "page mixed with another stream");
            n[tag] += len;
            pos += 5 + len;
        }
        assert_eq!(n, [0, 20 * 524288, 20 * 524288]);
    }
    std::fs::remove_dir_all(&dir).unwrap();
}
""", "two threads writing full pages to two streams of the same file at the same moment", "a page's header and its payload can be separated by another stream's page")

S("c03-adapter-flush-threshold", "C03", [(SER, """        // First flush the local buffer.
        self.0.flush(buffer);

        // Then flush the backing store.
        self.0.shared_state.0.lock().flush()?;
""", """        // Flush the backing store.
        self.0.shared_state.0.lock().flush()?;

        // Then flush the local buffer, unless it is too small to be worth it.
        if buffer.len() < 16 {
            return Ok(());
        }
        self.0.flush(buffer);
""")], """
use measureme::*;
use std::io::Write;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let path = dir.join("c03demo");
    let b = SerializationSinkBuilder::new_from_file(std::fs::File::create(&path).unwrap()).unwrap();
    let s = b.new_sink(PageTag::Events);
    let mut w = s.as_std_write();
    let mut total = 0;
    for n in [10usize, 127, 128, 200, 5000, 262144] {
        w.write_all(&vec![3u8; n]).unwrap();
        w.flush().unwrap();
        total += n;
        let d = std::fs::read(&path).unwrap();
        let mut pos = 0; let mut got = 0;
        while pos < d.len() {
            let len = u32::from_le_bytes([d[pos + 1], d[pos + 2], d[pos + 3], d[pos + 4]]) as usize;
            got += len; pos += 5 + len;
        }
        assert_eq!(got, total, "flushed data is missing from the file");
    }
    std::fs::remove_file(&path).unwrap();
}
""", "flushing a stream that buffers fewer than 128 bytes", "flush reports success while the buffered bytes have not reached the file")

S("c06-end-upper-bits", "C06", [(EV, "        self.payload2_lower as u64 | (((self.payloads_upper & 0x0000_FFFF) as u64) << 32)", "        self.payload2_lower as u64 + ((self.payloads_upper as u64 & 0x0000_7FFF) << 32)\n            + (((self.payloads_upper & 0x8000) as u64) << (31 + (self.payload2_lower > 0xFFFF_FFFD || self.payload1_lower != 0x8000_0000) as u64))")], """
use measureme::*;
fn main() {
    let k = StringId::new_virtual(1u64);
    let e = EventId::from_virtual(StringId::new_virtual(2u64));
    for (s, t) in [(0u64, 0u64), (5, 9), (0x8000_0000, 0x8000_0000_0000), (0x1_8000_0000, 0xC000_0000_0000), (1 << 47, (1 << 48) - 3)] {
        let r = RawEvent::new_interval(k, e, 3, s, t);
        assert_eq!((r.start_value(), r.end_value()), (s, t));
        assert!(!r.is_instant() && !r.is_integer());
    }
}
""", "an interval that ends in the upper half of the value range while the low 32 bits of its start are exactly 0x80000000", "the end of such an interval reads back halved")


S("c10-virtual-boundary", "C10", [(ST, "        self.0 <= METADATA_STRING_ID\n", "        self.0 < FIRST_REGULAR_STRING_ID\n")], """
use measureme::*;
fn main() {
    assert!(StringId::new_virtual(100_000_000u64).is_virtual());
    assert!(StringId::new(100_000_001u64).is_virtual());
    assert!(!StringId::INVALID.is_virtual(), "the invalid id is classified as a virtual id");
    assert!(!StringId::from_addr(Addr(0)).is_virtual());
}
""", "asking whether the reserved invalid id is virtual", "the invalid id is taken for a virtual string id")
