RE = "measureme/src/raw_event.rs"; ST = "measureme/src/stringtable.rs"; FH = "measureme/src/file_header.rs"; PR = "measureme/src/profiler.rs"; EI = "measureme/src/event_id.rs"
SER = "measureme/src/serialization.rs"
# C06, C07: raw events
M("core-re-compare-upper", "C07", RE, """        assert!(start <= end);
        assert!(end <= MAX_INTERVAL_VALUE);
""", """        assert!(start <= end);
        assert!((end >> 32) as u32 <= (MAX_INTERVAL_VALUE >> 32) as u32);
""", "bad")
M("core-re-debug", "C07", RE, """        assert!(start <= end);
        assert!(end""", """        debug_assert!(start <= end);
        assert!(end""", "bad")
M("core-re-clamp", "C07", RE, "        assert!(start <= end);\n", "        let end = end.max(start);\n", "bad")
M("core-re-order-ok", "C06 C07", RE, """        assert!(start <= end);
        assert!(end <= MAX_INTERVAL_VALUE);
""", """        if end > MAX_INTERVAL_VALUE || end < start {
            panic!("interval {}..{} cannot be represented", start, end);
        }
""", "ok")
M("core-re-helper-ok", "C06 C07", RE, [("""    #[inline]
    fn pack_values(""", """    #[inline]
    fn check_single(value: u64) -> u64 {
        assert!(value <= MAX_SINGLE_VALUE, "value too large: {}", value);
        value
    }

    #[inline]
    fn pack_values("""), ("""        assert!(instant <= MAX_SINGLE_VALUE);
        Self::pack_values(event_kind, event_id, thread_id, instant, INSTANT_MARKER)""", """        let instant = Self::check_single(instant);
        Self::pack_values(event_kind, event_id, thread_id, instant, INSTANT_MARKER)"""), ("""        assert!(value <= MAX_SINGLE_VALUE);
        Self::pack_values(event_kind, event_id, thread_id, value, INTEGER_MARKER)""", """        Self::pack_values(event_kind, event_id, thread_id, Self::check_single(value), INTEGER_MARKER)""")], None, "ok")
M("core-re-unpack-ok", "C06 C08 C18", RE, """    #[inline]
    pub fn value(&self) -> u64 {
        self.payload1_lower as u64 | (((self.payloads_upper & 0xFFFF_0000) as u64) << 16)
    }""", """    #[inline]
    pub fn value(&self) -> u64 {
        let upper = u64::from(self.payloads_upper >> 16);
        (upper << 32) + u64::from(self.payload1_lower)
    }""", "ok")
M("core-re-tobytes-ok", "C06 C30", RE, """            let raw_event_bytes: &[u8] = unsafe {
                std::slice::from_raw_parts(
                    self as *const _ as *const u8,
                    std::mem::size_of::<RawEvent>(),
                )
            };

            bytes.copy_from_slice(raw_event_bytes);""", """            let (ids, rest) = bytes.split_at_mut(16);
            ids[..8].copy_from_slice(&self.event_kind.as_u64().to_le_bytes());
            ids[8..].copy_from_slice(&self.event_id.as_u64().to_le_bytes());
            for (chunk, value) in rest.chunks_exact_mut(4).zip([
                self.thread_id,
                self.payload1_lower,
                self.payload2_lower,
                self.payloads_upper,
            ]) {
                chunk.copy_from_slice(&value.to_le_bytes());
            }""", "ok")
M("core-re-tobytes-bad", "C06", RE, """            let raw_event_bytes: &[u8] = unsafe {
                std::slice::from_raw_parts(
                    self as *const _ as *const u8,
                    std::mem::size_of::<RawEvent>(),
                )
            };

            bytes.copy_from_slice(raw_event_bytes);""", """            let (ids, rest) = bytes.split_at_mut(16);
            ids[..8].copy_from_slice(&self.event_kind.as_u64().to_le_bytes());
            ids[8..].copy_from_slice(&self.event_id.as_u64().to_le_bytes());
            for (chunk, value) in rest.chunks_exact_mut(4).zip([
                self.thread_id,
                self.payload1_lower,
                self.payloads_upper,
                self.payload2_lower,
            ]) {
                chunk.copy_from_slice(&value.to_le_bytes());
            }""", "bad")
M("core-re-be", "C06", RE, "bytes[28..32].copy_from_slice(&self.payloads_upper.to_le_bytes());", "bytes[28..32].copy_from_slice(&self.payloads_upper.to_ne_bytes());", "bad")
M("core-re-isint", "C06", RE, "self.end_value() == INTEGER_MARKER", "self.payload2_lower == INTEGER_MARKER as u32", "bad")
# C07 / C10: ids
M("core-id-virtual-limit", "C07", ST, "        assert!(id <= MAX_USER_VIRTUAL_STRING_ID);\n        StringId(id)", "        assert!(id <= METADATA_STRING_ID);\n        StringId(id)", "bad")
M("core-id-virtual-lt", "C07", ST, "        assert!(id <= MAX_USER_VIRTUAL_STRING_ID);\n        StringId(id)", "        assert!(id < MAX_USER_VIRTUAL_STRING_ID);\n        StringId(id)", "bad")
M("core-id-wrapping", "C10", ST, "Addr(self.0.checked_sub(FIRST_REGULAR_STRING_ID).unwrap())", "Addr(self.0.wrapping_sub(FIRST_REGULAR_STRING_ID))", "bad")
M("core-id-saturating", "C10", ST, "Addr(self.0.checked_sub(FIRST_REGULAR_STRING_ID).unwrap())", "Addr(self.0.saturating_sub(FIRST_REGULAR_STRING_ID))", "bad")
M("core-id-first", "C10", ST, "pub const FIRST_REGULAR_STRING_ID: u64 = INVALID_STRING_ID + 1;", "pub const FIRST_REGULAR_STRING_ID: u64 = INVALID_STRING_ID;", "bad")
M("core-id-invalid-virtual", "C10", ST, "self.0 <= METADATA_STRING_ID", "self.0 < FIRST_REGULAR_STRING_ID", "bad")
M("core-id-match-ok", "C10 C13 C12", ST, [("        Addr(self.0.checked_sub(FIRST_REGULAR_STRING_ID).unwrap())", """        match self.0.checked_sub(FIRST_REGULAR_STRING_ID) {
            Some(addr) => Addr(addr),
            None => panic!("{:?} is not a concrete string", self),
        }"""), ("self.0 <= METADATA_STRING_ID", "(0..INVALID_STRING_ID).contains(&self.0)")], None, "ok")
M("core-id-assert-ok", "C10 C11", ST, "        Addr(self.0.checked_sub(FIRST_REGULAR_STRING_ID).unwrap())", "        assert!(self.0 >= FIRST_REGULAR_STRING_ID);\n        Addr(self.0 - FIRST_REGULAR_STRING_ID)", "ok")
# C11
M("core-str-pop", "C11", ST, """            StringComponent::Value(s) => s.len(),
            StringComponent::Ref""", """            StringComponent::Value(s) => s.chars().count(),
            StringComponent::Ref""", "bad")
M("core-str-rev", "C11", ST, "        for component in self.iter() {\n            bytes", "        for component in self.iter().rev() {\n            bytes", "bad")
M("core-str-off", "C11", ST, "&mut bytes[9..]", "&mut bytes[STRING_REF_ENCODED_SIZE - 1..]", "bad")
M("core-str-size-cached", "C11", ST, """            fn serialized_size(&self) -> usize {
                (&self[..]).serialized_size()""", """            fn serialized_size(&self) -> usize {
                (&self[..]).serialized_size() + if $n > 12 { 1 } else { 0 }""", "bad")
M("core-str-fold-ok", "C11", ST, """        self.iter().map(|c| c.serialized_size()).sum::<usize>() + // size of components
        1 // terminator""", """        let mut size = 1; // terminator
        for component in self {
            size += component.serialized_size();
        }
        size""", "ok")
M("core-str-split-ok", "C11", ST, """        let last_byte_index = bytes.len() - 1;
        bytes[0..last_byte_index].copy_from_slice(self.as_bytes());
        bytes[last_byte_index] = TERMINATOR;""", """        let (terminator, text) = bytes.split_last_mut().expect("no room for the terminator");
        text.copy_from_slice(self.as_bytes());
        *terminator = TERMINATOR;""", "ok")
M("core-str-recursive-ok", "C11", ST, """        for component in self.iter() {
            bytes = component.serialize(bytes);
        }
""", """        let mut components = self.iter();
        while let Some(component) = components.next() {
            bytes = component.serialize(bytes);
        }
""", "ok")
M("core-str-alloc-ok", "C11 C13", ST, """        let size_in_bytes = s.serialized_size();
        let addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            s.serialize(mem);
        });

        StringId::from_addr(addr)""", """        let mut bytes = vec![0u8; s.serialized_size()];
        s.serialize(&mut bytes);
        StringId::from_addr(self.data_sink.write_bytes_atomic(&bytes))""", "ok")
# C12
M("core-map-helper-ok", "C12 C30", ST, """        type MappingEntry = [u64; 2];
        assert!(std::mem::size_of::<MappingEntry>() == 16);

        let to_addr_le = concrete_id.to_addr().0.to_le();

        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();

        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();
        let byte_ptr = serialized.as_ptr() as *const u8;

        let bytes = unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) };

        self.index_sink.write_bytes_atomic(bytes);""", """        let addr = concrete_id.to_addr().0.to_le_bytes();
        let mut bytes = Vec::with_capacity(virtual_ids.len() * 16);

        for from in virtual_ids {
            assert!(from.0 <= MAX_USER_VIRTUAL_STRING_ID);
            bytes.extend_from_slice(&from.0.to_le_bytes());
            bytes.extend_from_slice(&addr);
        }

        self.index_sink.write_bytes_atomic(&bytes);""", "ok")
M("core-map-skip-dup", "C12", ST, """        type MappingEntry = [u64; 2];
        assert!(std::mem::size_of::<MappingEntry>() == 16);

        let to_addr_le = concrete_id.to_addr().0.to_le();

        let serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();
""", """        type MappingEntry = [u64; 2];
        assert!(std::mem::size_of::<MappingEntry>() == 16);

        let to_addr_le = concrete_id.to_addr().0.to_le();

        let mut serialized: Vec<MappingEntry> = virtual_ids
            .map(|from| {
                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
                [id.to_le(), to_addr_le]
            })
            .collect();
        serialized.dedup();
""", "bad")
M("core-map-nocheck", "C07 C12", ST, """                let id = from.0;
                assert!(id <= MAX_USER_VIRTUAL_STRING_ID);
""", """                let id = from.0;
                assert!(from.is_virtual());
""", "bad")
M("core-map-two-writes", "C12", ST, """    sink.write_atomic(16, |bytes| {
        bytes[0..8].copy_from_slice(&id.0.to_le_bytes());
        bytes[8..16].copy_from_slice(&addr.0.to_le_bytes());
    });""", """    sink.write_bytes_atomic(&id.0.to_le_bytes());
    sink.write_bytes_atomic(&addr.0.to_le_bytes());""", "bad")
M("core-map-array-ok", "C12", ST, """    sink.write_atomic(16, |bytes| {
        bytes[0..8].copy_from_slice(&id.0.to_le_bytes());
        bytes[8..16].copy_from_slice(&addr.0.to_le_bytes());
    });""", """    let mut entry = [0u8; 16];
    let (id_bytes, addr_bytes) = entry.split_at_mut(8);
    addr_bytes.copy_from_slice(&addr.0.to_le_bytes());
    id_bytes.copy_from_slice(&id.0.to_le_bytes());
    sink.write_bytes_atomic(&entry);""", "ok")
# C15
M("core-hdr-prefix", "C15", FH, "    if actual_magic != expected_magic {", "    if actual_magic[..3] != expected_magic[..3] {", "bad")
M("core-hdr-short", "C15", FH, "    if bytes.len() < FILE_HEADER_SIZE {", "    if bytes.is_empty() {", "bad")
M("core-hdr-be", "C15", FH, "u32::from_le_bytes(bytes[4..8].try_into().unwrap());\n\n    if file_format_version != CURRENT", "u32::from_le_bytes([bytes[4], bytes[5], 0, 0]);\n\n    if file_format_version != CURRENT", "bad")
M("core-hdr-one-ok", "C15 C04", FH, """    s.write_all(file_magic).map_err(Box::new)?;
    s.write_all(&CURRENT_FILE_FORMAT_VERSION.to_le_bytes())
        .map_err(Box::new)?;
""", """    let mut header = [0u8; FILE_HEADER_SIZE];
    header[..4].copy_from_slice(file_magic);
    header[4..].copy_from_slice(&CURRENT_FILE_FORMAT_VERSION.to_le_bytes());
    s.write_all(&header).map_err(Box::new)?;
""", "ok")
M("core-hdr-starts-ok", "C15", FH, """    let actual_magic = &bytes[0..4];

    if actual_magic != expected_magic {""", """    let actual_magic = &bytes[0..4];

    if !bytes.starts_with(expected_magic) {""", "ok")
M("core-hdr-split-ok", "C15", FH, """    let file_format_version = u32::from_le_bytes(bytes[4..8].try_into().unwrap());

    if file_format_version""", """    let (_, version) = bytes[..FILE_HEADER_SIZE].split_at(4);
    let mut version_bytes = [0u8; 4];
    version_bytes.copy_from_slice(version);
    let file_format_version = u32::from_le_bytes(version_bytes);

    if file_format_version""", "ok")
M("core-hdr-late", "C15", PR, [("""        // The first thing in every stream we generate must be the stream header.
        write_file_header(&mut event_sink.as_std_write(), FILE_MAGIC_EVENT_STREAM)?;

""", ""), ("""        let profiler = Profiler {""", """        write_file_header(&mut event_sink.as_std_write(), FILE_MAGIC_TOP_LEVEL)?;

        let profiler = Profiler {""")], None, "bad")
# C08, C09
M("core-prof-start-late", "C08", PR, """        let raw_event =
            RawEvent::new_instant(event_kind, event_id, thread_id, self.counter.since_start());

        self.record_raw_event(&raw_event);""", """        self.event_sink
            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {
                RawEvent::new_instant(event_kind, event_id, thread_id, self.counter.since_start())
                    .serialize(bytes);
            });""", "ok")
M("core-prof-helper-ok", "C08 C09 C31", PR, [("""        TimingGuard {
            profiler: self,
            event_id,
            event_kind,
            thread_id,
            start_count: self.counter.since_start(),
        }
    }

    /// Creates a "start" event and returns a `DetachedTiming`.""", """        self.guard(self.start_recording_interval_event_detached(event_kind, event_id, thread_id))
    }

    #[inline]
    fn guard(&self, timing: DetachedTiming) -> TimingGuard<'_> {
        let DetachedTiming { event_id, event_kind, thread_id, start_count } = timing;
        TimingGuard { profiler: self, event_id, event_kind, thread_id, start_count }
    }

    /// Creates a "start" event and returns a `DetachedTiming`."""), ("""        drop(TimingGuard {
            profiler: self,
            event_id: timing.event_id,
            event_kind: timing.event_kind,
            thread_id: timing.thread_id,
            start_count: timing.start_count,
        });""", """        let _guard = self.guard(timing);""")], None, "ok")
M("core-prof-underscore", "C09", PR, """        drop(TimingGuard {
            profiler: self,
            event_id: timing.event_id,
            event_kind: timing.event_kind,
            thread_id: timing.thread_id,
            start_count: timing.start_count,
        });""", """        let guard = std::mem::ManuallyDrop::new(TimingGuard {
            profiler: self,
            event_id: timing.event_id,
            event_kind: timing.event_kind,
            thread_id: timing.thread_id,
            start_count: timing.start_count,
        });
        if guard.start_count > 0 {
            drop(std::mem::ManuallyDrop::into_inner(guard));
        }""", "bad")
M("core-prof-zero-len", "C09", PR, """        let raw_event = RawEvent::new_interval(
            self.event_kind,
            self.event_id,
            self.thread_id,
            self.start_count,
            self.profiler.counter.since_start(),
        );

        self.profiler.record_raw_event(&raw_event);
    }""", """        let end = self.profiler.counter.since_start();
        if end == self.start_count && self.event_id == EventId::INVALID {
            return;
        }
        let raw_event = RawEvent::new_interval(
            self.event_kind,
            self.event_id,
            self.thread_id,
            self.start_count,
            end,
        );

        self.profiler.record_raw_event(&raw_event);
    }""", "bad")
M("core-prof-dup-drop", "C09", PR, """        self.event_id = event_id;
        // Let's be explicit about it: Dropping the guard will record the event.
        drop(self)""", """        if self.event_id != event_id {
            let start_count = self.start_count;
            *&mut self = TimingGuard { profiler: self.profiler, event_id, event_kind: self.event_kind, thread_id: self.thread_id, start_count };
        }
        drop(self)""", "bad")
M("core-prof-order-ok", "C08 C09", PR, """        let raw_event = RawEvent::new_interval(
            self.event_kind,
            self.event_id,
            self.thread_id,
            self.start_count,
            self.profiler.counter.since_start(),
        );

        self.profiler.record_raw_event(&raw_event);
    }""", """        let end = self.profiler.counter.since_start();
        let TimingGuard { profiler, event_id, event_kind, thread_id, start_count } = *self;
        profiler.record_raw_event(&RawEvent::new_interval(event_kind, event_id, thread_id, start_count, end));
    }""", "ok")
# C05
M("core-lock-count", "C05", SER, """        let mut data = self.data.lock();
        let SerializationSinkInner {
            ref mut buffer,
            ref mut addr,
        } = *data;

        let curr_addr = Addr(*addr);""", """        let shared = self.shared_state.0.lock();
        let mut data = self.data.lock();
        drop(shared);
        let SerializationSinkInner {
            ref mut buffer,
            ref mut addr,
        } = *data;

        let curr_addr = Addr(*addr);""", "bad")
M("core-lock-nested-write", "C05", ST, """        let addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            s.serialize(mem);
        });

        StringId::from_addr(addr)""", """        let addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            if size_in_bytes > 1 << 17 {
                self.data_sink.write_bytes_atomic(&[TERMINATOR]);
            }
            s.serialize(mem);
        });

        StringId::from_addr(addr)""", "bad")
# C14
M("core-eid-map-ok", "C14", EI, """        parts.push(StringComponent::Ref(label));

        for arg in args {
            parts.push(StringComponent::Value(SEPARATOR_BYTE));
            parts.push(StringComponent::Ref(*arg));
        }
""", """        parts.push(StringComponent::Ref(label));
        parts.extend(args.iter().flat_map(|&arg| {
            [StringComponent::Value(SEPARATOR_BYTE), StringComponent::Ref(arg)]
        }));
""", "ok")
M("core-eid-vec-ok", "C14", EI, """        let mut parts = SmallVec::<[StringComponent<'_>; 7]>::with_capacity(1 + args.len() * 2);

        parts.push(StringComponent::Ref(label));

        for arg in args {
            parts.push(StringComponent::Value(SEPARATOR_BYTE));
            parts.push(StringComponent::Ref(*arg));
        }
""", """        let mut parts: SmallVec<[StringComponent<'_>; 7]> = SmallVec::new();
        parts.push(StringComponent::Ref(label));
        let mut i = 0;
        while i < args.len() {
            parts.extend([StringComponent::Value(SEPARATOR_BYTE), StringComponent::Ref(args[i])]);
            i += 1;
        }
""", "ok")
M("core-eid-single", "C14", EI, """        let mut parts = SmallVec""", """        if let [arg] = args {
            return self.from_label_and_arg(*arg, label);
        }
        let mut parts = SmallVec""", "bad")
M("core-eid-empty", "C14", EI, """        for arg in args {
            parts.push(StringComponent::Value""", """        for arg in args.iter().filter(|arg| **arg != label) {
            parts.push(StringComponent::Value""", "bad")
PD = "analyzeme/src/profiling_data.rs"
NTH = """    fn size_hint(&self) -> (usize, Option<usize>) {
        let items_left = self
            .backward"""
M("core-it-nth", "C17", PD, NTH, """    fn nth(&mut self, n: usize) -> Option<LightweightEvent> {
        self.forward_event_idx = self.forward_event_idx.saturating_add(n).min(self.data.num_events());
        self.next()
    }

""" + NTH, "bad")
M("core-it-nth-ok", "C17", PD, NTH, """    fn nth(&mut self, n: usize) -> Option<LightweightEvent> {
        self.forward_event_idx = self.forward_event_idx.saturating_add(n).min(self.backward_event_idx);
        self.next()
    }

    fn count(self) -> usize {
        self.backward_event_idx - self.forward_event_idx
    }

    fn last(mut self) -> Option<LightweightEvent> {
        self.next_back()
    }

""" + NTH, "ok")
M("core-it-last", "C17", PD, NTH, """    fn last(self) -> Option<LightweightEvent> {
        let last = self.data.num_events().checked_sub(1)?;
        Some(self.data.decode_lightweight_event(last))
    }

""" + NTH, "bad")
M("core-it-count", "C17", PD, NTH, """    fn count(self) -> usize {
        self.data.num_events() - self.forward_event_idx
    }

""" + NTH, "bad")
M("core-it-nthback", "C17", PD, """        Some(self.data.decode_lightweight_event(self.backward_event_idx))
    }
""", """        Some(self.data.decode_lightweight_event(self.backward_event_idx))
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.backward_event_idx = self.backward_event_idx.saturating_sub(n);
        if self.backward_event_idx == 0 {
            return None;
        }
        self.next_back()
    }
""", "bad")
M("core-it-len", "C17", PD, "impl<'a> ExactSizeIterator for ProfilerEventIterator<'a> {}", """impl<'a> ExactSizeIterator for ProfilerEventIterator<'a> {
    fn len(&self) -> usize {
        self.data.num_events() - self.forward_event_idx
    }
}""", "bad")
M("core-it-rev-ok", "C17", PD, """        if self.forward_event_idx == self.backward_event_idx {
            return None;
        }

        // Advance the index *before* reading the event
        self.backward_event_idx = self.backward_event_idx.checked_sub(1).unwrap();

        Some(self.data.decode_lightweight_event(self.backward_event_idx))""", """        if self.len() > 0 {
            // Advance the index *before* reading the event
            self.backward_event_idx -= 1;

            Some(self.data.decode_lightweight_event(self.backward_event_idx))
        } else {
            None
        }""", "ok")
M("core-it-full-eager-ok", "C17", PD, "        self.iter().map(move |e| self.to_full_event(&e))", """        (0..self.num_events()).map(move |index| self.decode_full_event(index))""", "ok")
M("core-it-full-vec-ok", "C17", PD, "        self.iter().map(move |e| self.to_full_event(&e))", """        self.iter().map(move |LightweightEvent { event_index, .. }| self.decode_full_event(event_index))""", "ok")
WA = """    fn flush(&mut self) -> std::io::Result<()> {
        let mut data = self.0.data.lock();"""
WR = """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.write_bytes_atomic(buf);
        Ok(buf.len())
    }
"""
M("core-wr-all-ok", "C01", SER, WR, WR + """
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.0.write_bytes_atomic(buf);
        Ok(())
    }
""", "ok")
M("core-wr-count", "C01", SER, WR, """    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = std::cmp::min(buf.len(), MAX_PAGE_SIZE);
        self.0.write_bytes_atomic(buf);
        Ok(n)
    }
""", "bad")
M("core-back-vectored-ok", "C02 C01 C03", SER, """            BackingStorage::Memory(ref mut vec) => vec.write(buf),
        }
    }
""", """            BackingStorage::Memory(ref mut vec) => vec.write(buf),
        }
    }

    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        match *self {
            BackingStorage::File(ref mut file) => file.write_all(buf),
            BackingStorage::Memory(ref mut vec) => {
                vec.extend_from_slice(buf);
                Ok(())
            }
        }
    }
""", "ok")
M("core-back-all-bad", "C02", SER, """            BackingStorage::Memory(ref mut vec) => vec.write(buf),
        }
    }
""", """            BackingStorage::Memory(ref mut vec) => vec.write(buf),
        }
    }

    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        match *self {
            BackingStorage::File(ref mut file) => file.write_all(buf),
            BackingStorage::Memory(ref mut vec) => {
                let len = vec.len();
                vec.resize(len + buf.len() - buf.len() % 2, 0);
                vec[len..len + buf.len() - buf.len() % 2].copy_from_slice(&buf[..buf.len() - buf.len() % 2]);
                Ok(())
            }
        }
    }
""", "bad")
