ENDS = """
use std::time::Duration;
fn within(what: &'static str, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); let _ = tx.send(r.is_ok()); });
    if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(Duration::from_secs(20)) { eprintln!("{} does not end", what); std::process::exit(1); }
}
"""
TB = "decodeme/src/stringtable.rs"; SR = "measureme/src/serialization.rs"
S("c42-empty-reference", "C42", [(TB, """                string_ref.write_to_string(output);

                pos += STRING_REF_ENCODED_SIZE;""", """                let written = output.len();
                string_ref.write_to_string(output);

                // Step over the reference once its text has been appended.
                if output.len() != written {
                    pos += STRING_REF_ENCODED_SIZE;
                }""")], ENDS + """
use measureme::*;
use std::sync::Arc;
fn main() {
    let b = SerializationSinkBuilder::new_in_memory();
    let (d, x) = (Arc::new(b.new_sink(PageTag::StringData)), Arc::new(b.new_sink(PageTag::StringIndex)));
    let t = StringTableBuilder::new(d.clone(), x.clone()).unwrap();
    let empty = t.alloc("");
    let id = t.alloc(&[StringComponent::Value("a"), StringComponent::Ref(empty), StringComponent::Value("b")][..]);
    drop(t);
    let d = Arc::try_unwrap(d).ok().unwrap().into_bytes();
    let x = Arc::try_unwrap(x).ok().unwrap().into_bytes();
    within("reading a string", move || {
        let t = decodeme::stringtable::StringTable::new(d, x, None).unwrap();
        assert_eq!(&t.get(id).to_string(), "ab");
    });
}
""", "a string with a reference to an empty string", "reading the string never returns", deps="measureme decodeme")
S("c42-empty-page", "C42", [(SR, """        assert!(page_size > 0);

        result""", """        result"""), (SR, """        pos += page_size + 5;""", """        // The page header is part of the page, so an empty one takes no room.
        pos += page_size + if page_size > 0 { 5 } else { 0 };""")], ENDS + """
fn main() {
    within("splitting the pages", || { measureme::split_streams(&[1, 3, 0, 0, 0, 97, 98, 99, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 100]); });
    within("splitting the pages", || { assert_eq!(measureme::split_streams(&[1, 3, 0, 0, 0, 97, 98, 99]).len(), 1); });
}
""", "a file with a page of length zero", "reading the file never returns")
S("c44-short-pages", "C44", [(SR, """        if buffer.len() + num_bytes > MAX_PAGE_SIZE {
            self.flush(buffer);
            assert!(buffer.is_empty());
        }
""", """        // Only give up a buffer that is worth a page of its own.
        if buffer.len() >= MIN_PAGE_SIZE && buffer.len() + num_bytes > MAX_PAGE_SIZE {
            self.flush(buffer);
            assert!(buffer.is_empty());
        }
""")], """
use measureme::*;
fn main() {
    for (a, n) in [(100usize, 262_144usize), (100_000, 200_000), (131_000, 131_200), (140_000, 200_000), (10, 262_100)] {
        let b = SerializationSinkBuilder::new_in_memory();
        let s = b.new_sink(PageTag::Events);
        for part in vec![1u8; a].chunks(100) { s.write_bytes_atomic(part); }
        s.write_atomic(n, |b| b.fill(2));
        s.write_bytes_atomic(&[3; 100]);
        let v = s.into_bytes();
        assert_eq!(v.len(), a + n + 100);
    }
}
""", "less than half a page of small writes followed by one reservation that does not fit beside them", "the buffer outgrows a page and writing it out panics")
S("c44-refill", "C44", [(SR, """            let num_bytes_to_take = min(MIN_PAGE_SIZE - buffer.len(), bytes_left.len());
""", """            // Data that makes up less than a page is not worth splitting.
            let num_bytes_to_take = if bytes_left.len() < MAX_PAGE_SIZE {
                bytes_left.len()
            } else {
                min(MIN_PAGE_SIZE - buffer.len(), bytes_left.len())
            };
""")], """
use measureme::*;
fn main() {
    for (a, b) in [(100usize, 262_140usize), (100_000, 100_000), (120_000, 200_000), (130_900, 131_300), (131_072, 131_072), (262_144, 129)] {
        let builder = SerializationSinkBuilder::new_in_memory();
        let s = builder.new_sink(PageTag::Events);
        for part in vec![7u8; a].chunks(100) { s.write_bytes_atomic(part); }
        s.write_bytes_atomic(&vec![8u8; b]);
        s.write_bytes_atomic(&[9; 10]);
        let v = s.into_bytes();
        assert_eq!(v.len(), a + b + 10);
        assert!(v[..a].iter().all(|&x| x == 7) && v[a..a + b].iter().all(|&x| x == 8) && v[a + b..] == [9; 10]);
    }
}
""", "less than half a page of small writes followed by one block that does not fit beside them", "the buffer outgrows a page and the next write or the end of recording panics")
