R = "measureme/src/raw_event.rs"; ST = "measureme/src/stringtable.rs"; FH = "measureme/src/file_header.rs"
DS = "decodeme/src/stringtable.rs"; DL = "decodeme/src/lib.rs"; DE = "decodeme/src/event.rs"; DP = "decodeme/src/event_payload.rs"; DW = "decodeme/src/lightweight_event.rs"
PD = "analyzeme/src/profiling_data.rs"; V8 = "analyzeme/src/file_formats/v8.rs"; EI = "measureme/src/event_id.rs"
M("c06-upper-mask", "C06", R, "let value1_upper = (value1 >> 16) as u32 & 0xFFFF_0000;", "let value1_upper = (value1 >> 16) as u32 & 0xFFF0_0000;")
M("c06-value", "C06", R, "    pub fn value(&self) -> u64 {\n        self.payload1_lower as u64 | (((self.payloads_upper & 0xFFFF_0000) as u64) << 16)", "    pub fn value(&self) -> u64 {\n        self.payload1_lower as u64 | (((self.payloads_upper & 0x7FFF_0000) as u64) << 16)")
M("c06-ok-or", "C06", R, "let payloads_upper = value1_upper | value2_upper;", "let payloads_upper = value1_upper + value2_upper;", "ok")
M("c06-ok-shift", "C06", R, "let value1_upper = (value1 >> 16) as u32 & 0xFFFF_0000;", "let value1_upper = ((value1 >> 32) as u32) << 16;", "ok")
M("c07-maxinterval", "C07", R, "assert!(end <= MAX_INTERVAL_VALUE);", "assert!(end <= MAX_SINGLE_VALUE);")
M("c07-instant", "C07", R, "assert!(instant <= MAX_SINGLE_VALUE);", "debug_assert!(instant <= MAX_SINGLE_VALUE);")
M("c07-order", "C07", R, "assert!(start <= end);\n        assert!(end <= MAX", "assert!(start <= end || start > MAX_INTERVAL_VALUE);\n        assert!(end <= MAX")
M("c10-virtual", "C10 C12", ST, "assert!(virtual_id.0 <= MAX_USER_VIRTUAL_STRING_ID);", "assert!(virtual_id.0 < METADATA_STRING_ID + 1);")
M("c11-dup-term", "C11", ST, "        assert!(bytes.len() == 1);\n        bytes[0] = TERMINATOR;", "        assert!(bytes.len() == 1);\n        bytes[0] = if self.is_empty() { 0 } else { TERMINATOR };")
M("c11-ref-be", "C11", ST, "bytes[1..9].copy_from_slice(&string_id.0.to_le_bytes());", "bytes[1..9].copy_from_slice(&string_id.0.to_ne_bytes());")
M("c11-array", "C11", ST, "                (&self[..]).serialize(bytes);", "                (&self[..]).serialize(bytes);\n                if $n == 13 { bytes[0] = TERMINATOR; }")
M("c11-ok-fold", "C11", ST, "self.iter().map(|c| c.serialized_size()).sum::<usize>() + // size of components\n        1 // terminator", "{ let mut n = 1; for c in self { n += c.serialized_size(); } n }", "ok")
M("c12-bulk-be", "C12 C11", ST, "let to_addr_le = concrete_id.to_addr().0.to_le();", "let to_addr_le = concrete_id.to_addr().0;")
M("c12-index-swap", "C12", ST, "bytes[0..8].copy_from_slice(&id.0.to_le_bytes());\n        bytes[8..16].copy_from_slice(&addr.0.to_le_bytes());", "bytes[8..16].copy_from_slice(&id.0.to_le_bytes());\n        bytes[0..8].copy_from_slice(&addr.0.to_le_bytes());")
M("c12-shortcut", "C12", DS, "if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {", "if first_byte == STRING_REF_TAG && terminator_pos <= STRING_REF_ENCODED_SIZE {")
M("c13-metaunknown", "C12 C13", DS, "        if self.id.is_virtual() {\n            match", "        if self.id.is_virtual() && self.id.as_u64() != measureme::stringtable::METADATA_STRING_ID - 1 {\n            match")
M("c12-lossy-split", "C12", DS, "if let Some(len) = memchr2(0xFF, 0xFE, remaining_data) {", "if let Some(len) = memchr(0xFF, remaining_data) {")
M("c12-first-wins", "C12", DS, "            .map(deserialize_index_entry)\n            .collect();", "            .map(deserialize_index_entry)\n            .fold(FxHashMap::default(), |mut m, (k, v)| { m.entry(k).or_insert(v); m });")
M("c12-ok-loop", "C12 C13", DS, "        let index: FxHashMap<_, _> = strip_file_header(&index_data)\n            .chunks(INDEX_ENTRY_SIZE)\n            .map(deserialize_index_entry)\n            .collect();", "        let mut index: FxHashMap<StringId, Addr> = FxHashMap::default();\n        for entry in strip_file_header(&index_data).chunks(INDEX_ENTRY_SIZE) {\n            let (id, addr) = deserialize_index_entry(entry);\n            index.insert(id, addr);\n        }", "ok")
M("c12-ok-match", "C12 C13", DS, "        if self.id.is_virtual() {\n            match self.table.index.get(&self.id) {\n                Some(&addr) => Ok(addr),\n                None => Err(()),\n            }\n        } else if", "        if self.id.is_virtual() {\n            self.table.index.get(&self.id).copied().ok_or(())\n        } else if", "ok")
M("c14-trim", "C14", DE, "        Ok(self.substring(start, end))", "        let mut end = end;\n        while end > start + 1 && self.full_text[end - 1] == b' ' { end -= 1; }\n        Ok(self.substring(start, end))")
M("c14-control", "C14", DE, ".filter(|x| !x.is_ascii_whitespace())\n            .any(u8::is_ascii_control)", ".filter(|x| !x.is_ascii_whitespace())\n            .any(|x| *x < 0x20)")
M("c14-empty-arg", "C14", DE, "        if start == end {\n            return", "        if start == end && start == 0 {\n            return")
M("c14-skip-bad", "C14", DE, "                    eprintln!(\"{}\", message);\n                    break;", "                    eprintln!(\"{}\", message);\n                    if parser.pos >= parser.full_text.len() { break; }")
M("c14-build", "C14", EI, "        for arg in args {\n            parts.push(StringComponent::Value(SEPARATOR_BYTE));\n            parts.push(StringComponent::Ref(*arg));", "        for arg in args {\n            if parts.len() < 15 { parts.push(StringComponent::Value(SEPARATOR_BYTE)); }\n            parts.push(StringComponent::Ref(*arg));")
M("c14-build-order", "C14", EI, "        for arg in args {\n            parts", "        for arg in args.iter().rev() {\n            parts")
M("c14-ok-flatmap", "C14", EI, "        for arg in args {\n            parts.push(StringComponent::Value(SEPARATOR_BYTE));\n            parts.push(StringComponent::Ref(*arg));\n        }", "        parts.extend(args.iter().flat_map(|arg| [StringComponent::Value(SEPARATOR_BYTE), StringComponent::Ref(*arg)]));", "ok")
M("c14-ok-index", "C14", EI, "        for arg in args {\n            parts.push(StringComponent::Value(SEPARATOR_BYTE));\n            parts.push(StringComponent::Ref(*arg));", "        for i in 0..args.len() {\n            parts.push(StringComponent::Value(SEPARATOR_BYTE));\n            parts.push(StringComponent::Ref(args[i]));", "ok")
M("c14-ok-loop", "C14 C18", DE, "        while parser.pos != parser.full_text.len() {\n            match parser.parse_arg() {\n                Ok(arg) => args.push(arg),\n                Err(message) => {\n                    eprintln!(\"{}\", message);\n                    break;\n                }\n            }\n        }", "        loop {\n            if parser.pos == parser.full_text.len() {\n                break;\n            }\n            match parser.parse_arg() {\n                Err(message) => {\n                    eprintln!(\"{}\", message);\n                    break;\n                }\n                Ok(arg) => args.push(arg),\n            }\n        }", "ok")
M("c15-version-ge", "C15", FH, "if file_format_version != CURRENT_FILE_FORMAT_VERSION {", "if file_format_version < CURRENT_FILE_FORMAT_VERSION {")
M("c15-version-low", "C15", FH, "let file_format_version = u32::from_le_bytes(bytes[4..8].try_into().unwrap());", "let file_format_version = u32::from(u16::from_le_bytes(bytes[4..6].try_into().unwrap()));")
M("c15-swap", "C15", DS, "            &index_data,\n            FILE_MAGIC_STRINGTABLE_INDEX,", "            &string_data,\n            FILE_MAGIC_STRINGTABLE_DATA,")
M("c16-cmd", "C16", V8, "cmd: old.cmd.clone(),", "cmd: old.cmd.trim_end().to_string(),")
M("c16-start", "C16", V8, "start_time: old.start_time,", "start_time: old.start_time.max(std::time::UNIX_EPOCH),")
M("c16-intv", "C16", V8, "OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },", "OldTimestamp::Interval { start, end } if start == end => Timestamp::Instant(start),\n        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },")
M("c16-label", "C16", V8, "event_kind: old.event_kind,\n            label: old.label,", "event_kind: old.label.clone(),\n            label: old.label,")
M("c16-range", "C16", PD, "file_formats::v8::FILE_FORMAT => Box::new", "7 | file_formats::v8::FILE_FORMAT => Box::new")
M("c16-wording", "C16", PD, "let msg = if unsupported_version > file_formats::current::FILE_FORMAT {", "let msg = if unsupported_version > file_formats::v8::FILE_FORMAT + 2 {")
M("c16-ok-if", "C16", PD, "let msg = if unsupported_version > file_formats::current::FILE_FORMAT {", "let msg = if !(unsupported_version < file_formats::current::FILE_FORMAT) {", "ok")
M("c17-back", "C17", PD, "        self.backward_event_idx = self.backward_event_idx.checked_sub(1).unwrap();\n\n        Some(self.data.decode_lightweight_event(self.backward_event_idx))", "        let event = self.data.decode_lightweight_event(self.backward_event_idx - 1);\n        self.backward_event_idx = if self.backward_event_idx - self.forward_event_idx == 2 { self.forward_event_idx } else { self.backward_event_idx - 1 };\n        Some(event)")
M("c17-hint", "C17", PD, "(items_left, Some(items_left))", "(items_left, Some(self.data.num_events() - self.forward_event_idx))")
M("c17-ge", "C17", PD, "        // Advance the index *after* reading the event\n        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();", "        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();\n        if self.forward_event_idx + 1 == self.backward_event_idx && self.backward_event_idx < self.data.num_events() { self.forward_event_idx += 1; }")
M("c17-ok-range", "C17", PD, "        if self.forward_event_idx == self.backward_event_idx {\n            return None;\n        }\n\n        let event = Some(self.data.decode_lightweight_event(self.forward_event_idx));\n\n        // Advance the index *after* reading the event\n        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();\n\n        event", "        if self.forward_event_idx < self.backward_event_idx {\n            let i = self.forward_event_idx;\n            self.forward_event_idx += 1;\n            Some(self.data.decode_lightweight_event(i))\n        } else {\n            None\n        }", "ok")
M("c18-end", "C18", DP, "let end = start_time + Duration::from_nanos(raw_event.end_value());", "let end = start_time + Duration::from_nanos(raw_event.end_value().max(raw_event.start_value() + 1));")
M("c18-micros", "C18", DP, "            let t = start_time + Duration::from_nanos(raw_event.start_value());", "            let t = start_time + Duration::from_micros(raw_event.start_value() / 1000);")
M("c18-kind", "C18", DL, "event_kind: stringtable.get(raw_event.event_kind).to_string(),", "event_kind: stringtable.get(raw_event.event_id.to_string_id()).to_string(),")
M("c18-num", "C18", DL, "event_byte_count / RAW_EVENT_SIZE", "event_byte_count.saturating_sub(1) / RAW_EVENT_SIZE")
M("c18-ok-match", "C18", DP, "        if raw_event.is_integer() {\n            Self::Integer(raw_event.value())\n        } else {\n            Self::Timestamp(Timestamp::from_raw_event(raw_event, start_time))\n        }", "        match raw_event.is_integer() {\n            false => Self::Timestamp(Timestamp::from_raw_event(raw_event, start_time)),\n            true => Self::Integer(raw_event.start_value()),\n        }", "ok")
LOOP = "        for arg in args {\n            parts.push(StringComponent::Value(SEPARATOR_BYTE));\n"
M("c14-dedup", "C14", EI, LOOP, "        let mut args = args.to_vec();\n        args.dedup();\n" + LOOP.replace("in args", "in args.iter()"))
M("c14-retain", "C14", EI, LOOP, "        let mut args = args.to_vec();\n        args.retain(|a| *a != label);\n" + LOOP.replace("in args", "in args.iter()"))
M("c14-retain-ok", "C14", EI, LOOP, "        let mut args = args.to_vec();\n        args.retain(|a| *a == label || *a != label);\n" + LOOP.replace("in args", "in args.iter()"), "ok")
M("c14-contains", "C14", EI, LOOP, "        if args.contains(&label) {\n            return self.from_label(label);\n        }\n" + LOOP)
M("c14-swapremove", "C14", EI, LOOP, "        let mut args = args.to_vec();\n        if args.len() > 4 {\n            let first = args.swap_remove(0);\n            args.insert(0, first);\n        }\n" + LOOP.replace("in args", "in args.iter()"))
M("c14-splitoff-ok", "C14", EI, LOOP, "        let mut args = args.to_vec();\n        let n = args.len() / 2;\n        let mut rest = args.split_off(n);\n        args.append(&mut rest);\n" + LOOP.replace("in args", "in args.iter()"), "ok")
