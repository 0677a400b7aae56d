# A second set of refactorings and bugs for the reading side, written from the property texts and the code alone.
DL = "decodeme/src/lib.rs"; DS = "decodeme/src/stringtable.rs"; DE = "decodeme/src/event.rs"; DP = "decodeme/src/event_payload.rs"; DW = "decodeme/src/lightweight_event.rs"
AN = "analyzeme/src/analysis.rs"; SC = "analyzeme/src/stack_collapse.rs"; PD = "analyzeme/src/profiling_data.rs"; V8 = "analyzeme/src/file_formats/v8.rs"
# ---- decodeme/lib.rs
M("s-dl-raw-helper-ok", "C16 C18 C12 C13", DL, [("""        let event_start_addr = event_index_to_addr(event_index);
        let event_end_addr = event_start_addr.checked_add(RAW_EVENT_SIZE).unwrap();

        let raw_event_bytes = &self.event_data[event_start_addr..event_end_addr];
        let raw_event = RawEvent::deserialize(raw_event_bytes);

        let stringtable = &self.stringtable;

        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);
""", """        let raw_event = self.raw_event(event_index);
        let stringtable = &self.stringtable;
        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);
"""), ("""        let event_start_addr = event_index_to_addr(event_index);
        let event_end_addr = event_start_addr.checked_add(RAW_EVENT_SIZE).unwrap();

        let raw_event_bytes = &self.event_data[event_start_addr..event_end_addr];
        let raw_event = RawEvent::deserialize(raw_event_bytes);

        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);

        LightweightEvent {""", """        let raw_event = self.raw_event(event_index);
        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);

        LightweightEvent {"""), ("""fn event_index_to_addr(event_index: usize) -> usize {
    FILE_HEADER_SIZE + event_index * mem::size_of::<RawEvent>()
}""", """impl EventDecoder {
    fn raw_event(&self, event_index: usize) -> RawEvent {
        let events = &self.event_data[FILE_HEADER_SIZE..];
        let start = event_index * mem::size_of::<RawEvent>();
        RawEvent::deserialize(&events[start..][..RAW_EVENT_SIZE])
    }
}""")], None, "ok")
M("s-dl-chunks-ok", "C16 C18", DL, """        let raw_event_bytes = &self.event_data[event_start_addr..event_end_addr];
        let raw_event = RawEvent::deserialize(raw_event_bytes);

        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);

        LightweightEvent {""", """        let _ = (event_start_addr, event_end_addr);
        let raw_event_bytes = self.event_data[FILE_HEADER_SIZE..]
            .chunks_exact(RAW_EVENT_SIZE)
            .nth(event_index)
            .unwrap();
        let raw_event = RawEvent::deserialize(raw_event_bytes);

        let payload = EventPayload::from_raw_event(&raw_event, self.metadata.start_time);

        LightweightEvent {""", "ok")
M("s-dl-num-ok", "C16 C18", DL, """        let event_byte_count = self.event_data.len() - FILE_HEADER_SIZE;
        assert!(event_byte_count % RAW_EVENT_SIZE == 0);
        event_byte_count / RAW_EVENT_SIZE""", """        let events = &self.event_data[FILE_HEADER_SIZE..];
        let count = events.len() / RAW_EVENT_SIZE;
        assert_eq!(count * RAW_EVENT_SIZE, events.len());
        count""", "ok")
M("s-dl-num-chunks-ok", "C16 C18", DL, """        let event_byte_count = self.event_data.len() - FILE_HEADER_SIZE;
        assert!(event_byte_count % RAW_EVENT_SIZE == 0);
        event_byte_count / RAW_EVENT_SIZE""", """        let chunks = self.event_data[FILE_HEADER_SIZE..].chunks_exact(RAW_EVENT_SIZE);
        assert!(chunks.remainder().is_empty());
        chunks.len()""", "ok")
M("s-dl-hdr-get-ok", "C15", DL, [("""    let actual_magic = &bytes[0..4];

    if actual_magic != expected_magic {""", """    let (actual_magic, rest) = bytes.split_at(expected_magic.len());

    if !bytes.starts_with(expected_magic) {"""), ("""    let file_format_version = u32::from_le_bytes(bytes[4..8].try_into().unwrap());

    Ok(file_format_version)""", """    let mut version = [0u8; 4];
    version.copy_from_slice(&rest[..4]);
    Ok(u32::from_le_bytes(version))""")], None, "ok")
M("s-dl-hdr-shift-ok", "C15", DL, """    let file_format_version = u32::from_le_bytes(bytes[4..8].try_into().unwrap());
""", """    let file_format_version = (0..4).fold(0u32, |acc, i| acc | u32::from(bytes[4 + i]) << (8 * i));
""", "ok")
M("s-dl-hdr-prefix", "C15", DL, """    let actual_magic = &bytes[0..4];

    if actual_magic != expected_magic {""", """    let actual_magic = &bytes[0..4];

    if actual_magic[..3] != expected_magic[..3] {""", "bad")
M("s-dl-hdr-sixteen", "C15", DL, """    let file_format_version = u32::from_le_bytes(bytes[4..8].try_into().unwrap());
""", """    let file_format_version = u32::from(u16::from_le_bytes(bytes[4..6].try_into().unwrap()));
""", "bad")
M("s-dl-take-ok", "C16 C18 C04 C12", DL, """        let string_data = split_data
            .remove(&PageTag::StringData)
            .ok_or("Invalid file: No string data found")?;
        let index_data = split_data
            .remove(&PageTag::StringIndex)
            .ok_or("Invalid file: No string index data found")?;
        let event_data = split_data
            .remove(&PageTag::Events)
            .ok_or("Invalid file: No event data found")?;
""", """        let mut take = |tag: PageTag, message: &'static str| split_data.remove(&tag).ok_or(message);

        let event_data = take(PageTag::Events, "Invalid file: No event data found")?;
        let string_data = take(PageTag::StringData, "Invalid file: No string data found")?;
        let index_data = take(PageTag::StringIndex, "Invalid file: No string index data found")?;
""", "ok")
M("s-dl-take-match-ok", "C16 C18 C04", DL, """        let event_data = split_data
            .remove(&PageTag::Events)
            .ok_or("Invalid file: No event data found")?;
""", """        let event_data = match split_data.remove(&PageTag::Events) {
            Some(event_data) => event_data,
            None => return Err("Invalid file: No event data found".into()),
        };
""", "ok")
M("s-dl-noevents", "C16 C15", DL, """            .remove(&PageTag::Events)
            .ok_or("Invalid file: No event data found")?;
""", """            .remove(&PageTag::Events)
            .unwrap_or_default();
""", "ok")
M("s-dl-meta-ok", "C16 C13", DL, """        let metadata = stringtable.get_metadata().to_string();
        let metadata: Metadata = serde_json::from_str(&metadata)?;
""", """        let mut json = String::new();
        stringtable.get_metadata().write_to_string(&mut json);
        let metadata = serde_json::from_str::<Metadata>(json.as_str()).map_err(|e| Box::new(e))?;
""", "ok")
M("s-dl-meta-clone-ok", "C16 C18", DL, """    pub fn metadata(&self) -> Metadata {
        self.metadata.clone()
    }""", """    pub fn metadata(&self) -> Metadata {
        let Metadata { start_time, process_id, ref cmd } = self.metadata;
        Metadata { start_time, process_id, cmd: cmd.to_string() }
    }""", "ok")
M("s-dl-meta-cmd", "C16 C18", DL, """    pub fn metadata(&self) -> Metadata {
        self.metadata.clone()
    }""", """    pub fn metadata(&self) -> Metadata {
        let mut metadata = self.metadata.clone();
        metadata.cmd = metadata.cmd.trim().to_string();
        metadata
    }""", "bad")
M("s-dl-start-secs", "C29", DL, """    let duration_from_epoch = Duration::from_nanos(u64::deserialize(deserializer)?);
""", """    let nanos = u64::deserialize(deserializer)?;
    let duration_from_epoch = Duration::new(nanos / 1_000_000_000, (nanos % 1_000_000_000) as u32 / 1_000 * 1_000);
""", "bad")
M("s-dl-start-ok", "C29 C16 C18", DL, """    let duration_from_epoch = Duration::from_nanos(u64::deserialize(deserializer)?);
    Ok(UNIX_EPOCH
        .checked_add(duration_from_epoch)
        .expect("a time that can be represented as SystemTime"))""", """    let nanos = u64::deserialize(deserializer)?;
    let since_epoch = Duration::new(nanos / 1_000_000_000, (nanos % 1_000_000_000) as u32);
    Ok(UNIX_EPOCH + since_epoch)""", "ok")
M("s-dl-kind-owned-ok", "C16 C18 C14", DL, """        let event_id = stringtable
            .get(raw_event.event_id.to_string_id())
            .to_string();

        // Parse out the label and arguments from the `event_id`.
        let (label, additional_data) = Event::parse_event_id(event_id);

        Event {
            event_kind: stringtable.get(raw_event.event_kind).to_string(),""", """        let resolve = |id| stringtable.get(id).to_string();
        let event_kind = resolve(raw_event.event_kind);

        // Parse out the label and arguments from the `event_id`.
        let (label, additional_data) =
            Event::parse_event_id(resolve(raw_event.event_id.to_string_id()));

        Event {
            event_kind,""", "ok")
# ---- decodeme/stringtable.rs
M("s-ds-addr-opt-ok", "C12 C13 C16", DS, [("""    fn get_addr(&self) -> Result<Addr, ()> {
        if self.id.is_virtual() {
            match self.table.index.get(&self.id) {
                Some(&addr) => Ok(addr),
                None => Err(()),
            }
        } else if self.id == StringId::INVALID {
            Err(())
        } else {
            Ok(self.id.to_addr())
        }
    }""", """    fn get_addr(&self) -> Option<Addr> {
        if self.id == StringId::INVALID {
            return None;
        }
        if self.id.is_virtual() {
            return self.table.index.get(&self.id).copied();
        }
        Some(self.id.to_addr())
    }"""), ("""        let addr = match self.get_addr() {
            Ok(addr) => addr,
            Err(_) => return Cow::from(UNKNOWN_STRING),
        };
""", """        let Some(addr) = self.get_addr() else {
            return Cow::Borrowed(UNKNOWN_STRING);
        };
"""), ("""        let addr = match self.get_addr() {
            Ok(addr) => addr,
            Err(_) => {
                output.push_str(UNKNOWN_STRING);
                return;
            }
        };

        let mut pos = addr.as_usize();
""", """        let mut pos = match self.get_addr() {
            Some(addr) => addr.as_usize(),
            None => return output.push_str(UNKNOWN_STRING),
        };
""")], None, "ok")
M("s-ds-expand-helper-ok", "C11 C12 C13 C42", DS, [("""                let mut output = String::new();
                self.write_to_string(&mut output);
                return Cow::from(output);
            }
        };
""", """                return Cow::Owned(self.expand());
            }
        };
"""), ("""            let mut output = String::new();
            self.write_to_string(&mut output);
            Cow::from(output)
        }
    }
""", """            Cow::Owned(self.expand())
        }
    }

    fn expand(&self) -> String {
        let mut output = String::with_capacity(64);
        self.write_to_string(&mut output);
        output
    }
""")], None, "ok")
M("s-ds-always-slow-ok", "C11 C12 C13 C42", DS, """        let pos = addr.as_usize();
        let slice_to_search = &self.table.string_data[pos..];
""", """        let pos = addr.as_usize();
        if pos < usize::MAX {
            let mut output = String::new();
            self.write_to_string(&mut output);
            return Cow::from(output);
        }
        let slice_to_search = &self.table.string_data[pos..];
""", "ok")
M("s-ds-slice-walk-ok", "C11 C12 C13 C42", DS, """        let mut pos = addr.as_usize();

        loop {
            let byte = self.table.string_data[pos];

            if byte == TERMINATOR {
                return;
            } else if byte == STRING_REF_TAG {
                let string_ref = StringRef {
                    id: decode_string_ref_from_data(&self.table.string_data[pos..]),
                    table: self.table,
                };

                string_ref.write_to_string(output);

                pos += STRING_REF_ENCODED_SIZE;
            } else {
                // This is a literal UTF-8 string value. Find its end by looking
                // for either of the two possible terminator bytes.
                let remaining_data = &self.table.string_data[pos..];
                if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {
                    let value = String::from_utf8_lossy(&remaining_data[..len]);
                    output.push_str(&value);
                    pos += len;
                } else {
                    // The grammar does not allow unterminated raw strings. We
                    // have to stop decoding.
                    output.push_str(INVALID_STRING);
                    return;
                }
            }
        }""", """        let mut rest = &self.table.string_data[addr.as_usize()..];

        while rest[0] != TERMINATOR {
            if rest[0] == STRING_REF_TAG {
                self.table.get(decode_string_ref_from_data(rest)).write_to_string(output);
                rest = &rest[STRING_REF_ENCODED_SIZE..];
                continue;
            }
            let len = match memchr2(TERMINATOR, STRING_REF_TAG, rest) {
                Some(len) => len,
                None => {
                    output.push_str(INVALID_STRING);
                    return;
                }
            };
            let (value, tail) = rest.split_at(len);
            output.push_str(&String::from_utf8_lossy(value));
            rest = tail;
        }""", "ok")
M("s-ds-find-iter-ok", "C11 C12 C13", DS, """                if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {""", """                let end = remaining_data
                    .iter()
                    .position(|&b| b == TERMINATOR || b == STRING_REF_TAG);
                if let Some(len) = end {""", "ok")
M("s-ds-find-range-ok", "C11 C12 C13", DS, """                if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {""", """                let end = remaining_data.iter().position(|b| *b >= STRING_REF_TAG);
                if let Some(len) = end {""", "ok")
M("s-ds-utf8-strict-ok", "C11 C12", DS, """                    let value = String::from_utf8_lossy(&remaining_data[..len]);
                    output.push_str(&value);
                    pos += len;""", """                    match std::str::from_utf8(&remaining_data[..len]) {
                        Ok(value) => output.push_str(value),
                        Err(_) => output.push_str(&String::from_utf8_lossy(&remaining_data[..len])),
                    }
                    pos += len;""", "ok")
M("s-ds-deref-ok", "C11 C12 C13", DS, """    assert!(bytes[0] == STRING_REF_TAG);
    assert!(STRING_REF_ENCODED_SIZE == 9);

    let id = u64::from_le_bytes(bytes[1..9].try_into().unwrap());
    StringId::new(id)""", """    let (tag, id) = bytes[..STRING_REF_ENCODED_SIZE].split_first().unwrap();
    assert_eq!(*tag, STRING_REF_TAG);

    let mut buffer = [0; 8];
    buffer.copy_from_slice(id);
    StringId::new(u64::from_le_bytes(buffer))""", "ok")
M("s-ds-deref-rev-ok", "C11 C12 C13", DS, """    let id = u64::from_le_bytes(bytes[1..9].try_into().unwrap());
    StringId::new(id)""", """    let id = bytes[1..STRING_REF_ENCODED_SIZE]
        .iter()
        .rev()
        .fold(0u64, |id, &byte| (id << 8) | u64::from(byte));
    StringId::new(id)""", "ok")
M("s-ds-deref-trunc", "C11 C12 C13", DS, """    let id = u64::from_le_bytes(bytes[1..9].try_into().unwrap());
    StringId::new(id)""", """    let id = u32::from_le_bytes(bytes[1..5].try_into().unwrap());
    StringId::new(u64::from(id))""", "bad")
M("s-ds-index-loop-ok", "C12 C13 C16", DS, """        let index: FxHashMap<_, _> = strip_file_header(&index_data)
            .chunks(INDEX_ENTRY_SIZE)
            .map(deserialize_index_entry)
            .collect();
""", """        let entries = strip_file_header(&index_data);
        let mut index = FxHashMap::default();
        let mut pos = 0;
        while pos + INDEX_ENTRY_SIZE <= entries.len() {
            let (id, addr) = deserialize_index_entry(&entries[pos..pos + INDEX_ENTRY_SIZE]);
            index.insert(id, addr);
            pos += INDEX_ENTRY_SIZE;
        }
""", "ok")
M("s-ds-index-extend-ok", "C12 C13 C16", DS, """        let index: FxHashMap<_, _> = strip_file_header(&index_data)
            .chunks(INDEX_ENTRY_SIZE)
            .map(deserialize_index_entry)
            .collect();
""", """        let mut index = FxHashMap::default();
        index.reserve(index_data.len() / INDEX_ENTRY_SIZE);
        index.extend(
            index_data[measureme::file_header::FILE_HEADER_SIZE..]
                .chunks_exact(INDEX_ENTRY_SIZE)
                .map(|entry| deserialize_index_entry(entry)),
        );
""", "ok")
M("s-ds-index-rev", "C12 C13", DS, """            .chunks(INDEX_ENTRY_SIZE)
            .map(deserialize_index_entry)
            .collect();
""", """            .chunks(INDEX_ENTRY_SIZE)
            .rev()
            .map(deserialize_index_entry)
            .collect();
""", "bad")
M("s-ds-entry-split-ok", "C12 C13 C16", DS, """    (
        StringId::new(u64::from_le_bytes(bytes[0..8].try_into().unwrap())),
        Addr(u64::from_le_bytes(bytes[8..16].try_into().unwrap())),
    )""", """    let read = |bytes: &[u8]| u64::from_le_bytes(bytes.try_into().unwrap());
    let (id, addr) = bytes.split_at(std::mem::size_of::<StringId>());
    (StringId::new(read(id)), Addr(read(addr)))""", "ok")
M("s-ds-invalid-first", "C13", DS, """        } else if self.id == StringId::INVALID {
            Err(())
        } else {""", """        } else {""", "bad")
M("s-ds-virtual-fallback", "C12 C13", DS, """                None => Err(()),
            }
        } else if""", """                None => Ok(Addr(8)),
            }
        } else if""", "bad")
M("s-ds-fast-ref-any", "C11 C12 C13", DS, """        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {""", """        if first_byte == STRING_REF_TAG && terminator_pos >= STRING_REF_ENCODED_SIZE {""", "bad")
M("s-ds-fast-two", "C11 C12 C13", DS, """        if let Ok(s) = std::str::from_utf8(&slice_to_search[..terminator_pos]) {
            Cow::from(s)
        } else {""", """        let text = &slice_to_search[..terminator_pos];
        let text = &text[..text.len().min(4096)];
        if let Ok(s) = std::str::from_utf8(text) {
            Cow::from(s)
        } else {""", "bad")
M("s-ds-nul", "C11 C12 C13", DS, """        let terminator_pos = match memchr(TERMINATOR, slice_to_search) {""", """        let terminator_pos = match memchr2(TERMINATOR, 0, slice_to_search) {""", "bad")
# ---- decodeme/event.rs
M("s-de-split-ok", "C14", DE, """        let end = memchr(SEPARATOR_BYTE, &self.full_text[start..])
            .map(|pos| pos + start)
            .unwrap_or(self.full_text.len());
""", """        let mut end = start;
        while end < self.full_text.len() && self.full_text[end] != SEPARATOR_BYTE {
            end += 1;
        }
""", "ok")
M("s-de-matchpos-ok", "C14", DE, """        let end = memchr(SEPARATOR_BYTE, &self.full_text[start..])
            .map(|pos| pos + start)
            .unwrap_or(self.full_text.len());
""", """        let end = match self.full_text[start..].iter().position(|&b| b == SEPARATOR_BYTE) {
            Some(offset) => start + offset,
            None => self.full_text.len(),
        };
""", "ok")
M("s-de-control-ok", "C14", DE, """        if self.full_text[start..end]
            .iter()
            .filter(|x| !x.is_ascii_whitespace())
            .any(u8::is_ascii_control)
        {""", """        let is_unexpected = |b: &u8| b.is_ascii_control() && !b.is_ascii_whitespace();
        if self.full_text[start..end].iter().any(is_unexpected) {""", "ok")
M("s-de-control-all-ok", "C14", DE, """        if self.full_text[start..end]
            .iter()
            .filter(|x| !x.is_ascii_whitespace())
            .any(u8::is_ascii_control)
        {""", """        let text = &self.full_text[start..end];
        if !text.iter().all(|b| b.is_ascii_whitespace() || !b.is_ascii_control()) {""", "ok")
M("s-de-control-vt", "C14", DE, """            .filter(|x| !x.is_ascii_whitespace())
            .any(u8::is_ascii_control)""", """            .filter(|x| !(**x as char).is_whitespace())
            .any(u8::is_ascii_control)""", "bad")
M("s-de-order-ok", "C14", DE, """        if start == end {
            return self.err("Zero-length <text>");
        }

        self.pos = end;

        if self""", """        if end <= start {
            return self.err("Zero-length <text>");
        }

        let start = std::mem::replace(&mut self.pos, end);

        if self""", "ok")
M("s-de-loop-ok", "C14", DE, """        while parser.pos != parser.full_text.len() {
            match parser.parse_arg() {
                Ok(arg) => args.push(arg),
                Err(message) => {
                    eprintln!("{}", message);
                    break;
                }
            }
        }
""", """        loop {
            if parser.pos >= parser.full_text.len() {
                break;
            }
            let arg = match parser.parse_arg() {
                Err(message) => {
                    eprintln!("{}", message);
                    return (label, args);
                }
                Ok(arg) => arg,
            };
            args.push(arg);
        }
""", "ok")
M("s-de-fromfn-ok", "C14", DE, """        let mut args = Vec::new();

        while parser.pos != parser.full_text.len() {
            match parser.parse_arg() {
                Ok(arg) => args.push(arg),
                Err(message) => {
                    eprintln!("{}", message);
                    break;
                }
            }
        }

        (label, args)""", """        let args = std::iter::from_fn(|| {
            if parser.pos == parser.full_text.len() {
                return None;
            }
            parser.parse_arg().map_err(|message| eprintln!("{}", message)).ok()
        })
        .collect();

        (label, args)""", "ok")
M("s-de-continue", "C14", DE, """                Err(message) => {
                    eprintln!("{}", message);
                    break;
                }
            }
        }

        (label, args)""", """                Err(message) => {
                    eprintln!("{}", message);
                    args.clear();
                    break;
                }
            }
        }

        (label, args)""", "bad")
M("s-de-owned-pos", "C14", DE, """            Cow::Owned(ref s) => {
                let bytes = s[start..end].to_owned();""", """            Cow::Owned(ref s) => {
                let end = end.min(s.len().saturating_sub(usize::from(end < start)));
                let bytes = s[start..end].to_owned();""", "ok")
M("s-de-owned-lossy", "C14", DE, """            Cow::Owned(ref s) => {
                let bytes = s[start..end].to_owned();
                Cow::Owned(String::from_utf8(bytes).unwrap())
            }""", """            Cow::Owned(ref s) => {
                let text = std::str::from_utf8(&s[start..end]).unwrap();
                Cow::Owned(text.trim_end().to_owned())
            }""", "bad")
# ---- payloads
M("s-dp-contains-ok", "C21 C19 C20", DP, """        match self {
            EventPayload::Timestamp(Timestamp::Interval {
                start: self_start,
                end: self_end,
            }) => match other {
                EventPayload::Timestamp(Timestamp::Interval {
                    start: other_start,
                    end: other_end,
                }) => self_start <= other_start && other_end <= self_end,
                EventPayload::Timestamp(Timestamp::Instant(other_t)) => {
                    self_start <= other_t && other_t <= self_end
                }
                EventPayload::Integer(_) => false,
            },
            EventPayload::Timestamp(Timestamp::Instant(_)) | EventPayload::Integer(_) => false,
        }""", """        let (start, end) = match *self {
            EventPayload::Timestamp(Timestamp::Interval { start, end }) => (start, end),
            _ => return false,
        };
        match other.timestamp() {
            Some(t) => (start..=end).contains(&t.start()) && t.end() <= end,
            None => false,
        }""", "ok")
M("s-dp-contains-tuple-ok", "C21 C19 C20", DP, """        match self {
            EventPayload::Timestamp(Timestamp::Interval {
                start: self_start,
                end: self_end,
            }) => match other {
                EventPayload::Timestamp(Timestamp::Interval {
                    start: other_start,
                    end: other_end,
                }) => self_start <= other_start && other_end <= self_end,
                EventPayload::Timestamp(Timestamp::Instant(other_t)) => {
                    self_start <= other_t && other_t <= self_end
                }
                EventPayload::Integer(_) => false,
            },
            EventPayload::Timestamp(Timestamp::Instant(_)) | EventPayload::Integer(_) => false,
        }""", """        if !self.is_interval() || other.is_integer() {
            return false;
        }
        let (outer, inner) = (self.timestamp().unwrap(), other.timestamp().unwrap());
        !(inner.start() < outer.start()) && !(inner.end() > outer.end())""", "ok")
M("s-dp-from-ok", "C18 C16", DP, """        debug_assert!(!raw_event.is_integer());
        if raw_event.is_instant() {
            let t = start_time + Duration::from_nanos(raw_event.start_value());
            Self::Instant(t)
        } else {
            let start = start_time + Duration::from_nanos(raw_event.start_value());
            let end = start_time + Duration::from_nanos(raw_event.end_value());
            Timestamp::Interval { start, end }
        }""", """        let at = |nanos: u64| start_time + Duration::from_nanos(nanos);
        let start = at(raw_event.start_value());
        match raw_event.is_instant() {
            true => Timestamp::Instant(start),
            false => Timestamp::Interval { start, end: at(raw_event.end_value()) },
        }""", "ok")
M("s-dp-from-end", "C18 C16", DP, """            let end = start_time + Duration::from_nanos(raw_event.end_value());
            Timestamp::Interval { start, end }""", """            let end = start + Duration::from_nanos(raw_event.end_value() - raw_event.start_value()).max(Duration::from_nanos(1));
            Timestamp::Interval { start, end }""", "bad")
M("s-dp-from-delta-ok", "C18 C16", DP, """            let end = start_time + Duration::from_nanos(raw_event.end_value());
            Timestamp::Interval { start, end }""", """            let end = start + Duration::from_nanos(raw_event.end_value() - raw_event.start_value());
            Timestamp::Interval { start, end }""", "ok")
M("s-dp-dur-ok", "C21 C19", DP, """        if let Timestamp::Interval { start, end } = *self {
            end.duration_since(start).ok()
        } else {
            None
        }""", """        match *self {
            Timestamp::Interval { .. } => self.end().duration_since(self.start()).ok(),
            Timestamp::Instant(_) => None,
        }""", "ok")
M("s-dp-dur-instant", "C21", DP, """        if let Timestamp::Interval { start, end } = *self {
            end.duration_since(start).ok()
        } else {
            None
        }""", """        self.end().duration_since(self.start()).ok()""", "bad")
M("s-dw-map-ok", "C21 C20", DW, """        self.payload.timestamp().map(|t| t.start())""", """        match self.payload {
            EventPayload::Timestamp(Timestamp::Interval { start, .. })
            | EventPayload::Timestamp(Timestamp::Instant(start)) => Some(start),
            EventPayload::Integer(_) => None,
        }""", "ok")

M("s-dl-start-f64", "C29", DL, """    let duration_from_epoch = Duration::from_nanos(u64::deserialize(deserializer)?);
""", """    let nanos = u64::deserialize(deserializer)?;
    let duration_from_epoch = Duration::from_secs_f64(nanos as f64 / 1e9);
""", "bad")
M("s-dl-start-i32", "C29", DL, """    let duration_from_epoch = Duration::from_nanos(u64::deserialize(deserializer)?);
""", """    let nanos = u64::deserialize(deserializer)?;
    let duration_from_epoch = Duration::from_secs(nanos / 1_000_000_000) + Duration::from_micros(nanos / 1_000 % 1_000_000);
""", "bad")
M("s-dl-start-map-ok", "C29", DL, """    let duration_from_epoch = Duration::from_nanos(u64::deserialize(deserializer)?);
    Ok(UNIX_EPOCH
        .checked_add(duration_from_epoch)
        .expect("a time that can be represented as SystemTime"))""", """    u64::deserialize(deserializer).map(|nanos| UNIX_EPOCH + Duration::from_nanos(nanos))""", "ok")
M("s-dl-pid-with", "C29", DL, [("""    pub process_id: u32,
""", """    #[serde(deserialize_with = "small_id")]
    pub process_id: u32,
"""), ("""#[derive(Clone, Debug, Deserialize)]
pub struct Metadata {""", """fn small_id<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u32, D::Error> {
    Ok(u64::deserialize(deserializer)?.min(i32::MAX as u64) as u32)
}

#[derive(Clone, Debug, Deserialize)]
pub struct Metadata {""")], None, "bad")
M("s-dl-cmd-with", "C29", DL, [("""    pub cmd: String,
""", """    #[serde(deserialize_with = "trimmed")]
    pub cmd: String,
"""), ("""#[derive(Clone, Debug, Deserialize)]
pub struct Metadata {""", """fn trimmed<'de, D: Deserializer<'de>>(deserializer: D) -> Result<String, D::Error> {
    let text = String::deserialize(deserializer)?;
    Ok(text.replace('\\0', ""))
}

#[derive(Clone, Debug, Deserialize)]
pub struct Metadata {""")], None, "bad")
