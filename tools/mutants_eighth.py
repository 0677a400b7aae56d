"""A further round: bugs and equal edits in the readers and tools, written from the properties alone."""
SS = "measureme/src/serialization.rs"; ST = "measureme/src/stringtable.rs"
DL = "decodeme/src/lib.rs"; DP = "decodeme/src/event_payload.rs"; DT = "decodeme/src/stringtable.rs"; LW = "decodeme/src/lightweight_event.rs"
SC = "analyzeme/src/stack_collapse.rs"; AN = "analyzeme/src/analysis.rs"
MV = "mmview/src/main.rs"; ME = "mmedit/src/main.rs"

# ---- viewer
SEL = """        if let Some(thread_id) = opt.thread_id {
            if event.thread_id != thread_id {
                continue;
            }
        }
        print_event"""
M("y-mv-thread-zero", "C26", MV, SEL, "        if let Some(thread_id) = opt.thread_id.filter(|t| *t > 0) {\n            if event.thread_id != thread_id {\n                continue;\n            }\n        }\n        print_event")
M("y-mv-select-ok", "C26", MV, SEL, "        if opt.thread_id.unwrap_or(event.thread_id) != event.thread_id {\n            continue;\n        }\n        print_event", "ok")
M("y-mv-select-match-ok", "C26", MV, SEL, "        match opt.thread_id {\n            Some(t) if t != event.thread_id => continue,\n            _ => {}\n        }\n        print_event", "ok")
M("y-mv-start-selected", "C26", MV, "        .filter_map(|e| e.start())\n", "        .filter(|e| opt.thread_id.map_or(true, |t| t == e.thread_id))\n        .filter_map(|e| e.start())\n")
M("y-mv-start-first", "C26", MV, "        .filter_map(|e| e.start())\n        .min()\n", "        .find_map(|e| e.start())\n")
M("y-mv-start-interval", "C26", MV, "        .filter_map(|e| e.start())\n", "        .filter(|e| !e.payload.is_interval() || e.duration().map_or(false, |d| d.as_nanos() > 0))\n        .filter_map(|e| e.start())\n")
M("y-mv-start-fold-ok", "C26", MV, "        .filter_map(|e| e.start())\n        .min()\n", "        .filter_map(|e| e.start())\n        .fold(None, |a: Option<SystemTime>, b| Some(a.map_or(b, |a| a.min(b))))\n", "ok")
M("y-mv-start-reduce-ok", "C26", MV, "        .filter_map(|e| e.start())\n        .min()\n", "        .filter_map(|e| e.start())\n        .reduce(std::cmp::min)\n", "ok")
M("y-mv-swallow", "C26", MV, "    let data = ProfilingData::new(&opt.file_prefix)?;\n", "    let data = match ProfilingData::new(&opt.file_prefix) {\n        Ok(data) => data,\n        Err(e) => {\n            eprintln!(\"{}\", e);\n            return Ok(());\n        }\n    };\n")
M("y-mv-exact-micros", "C26", MV, "        .as_micros()\n", "        .as_secs() as u128\n        * 1_000_000\n")
M("y-mv-subsec", "C26", MV, "        .as_micros()\n", "        .subsec_micros() as u128\n")
M("y-mv-joined-args", "C26", MV, 'event.additional_data.join(",")', 'event.additional_data.iter().filter(|a| !a.is_empty()).map(|a| a.as_ref()).collect::<Vec<&str>>().join(",")')
M("y-mv-args-map-ok", "C26", MV, 'event.additional_data.join(",")', 'event.additional_data.iter().map(|a| a.as_ref()).collect::<Vec<&str>>().join(",")', "ok")

# ---- truncation
EVP = """                if !event_page_emitted {
                    truncated.extend_from_slice(page_bytes);
                    event_page_emitted = true;
                }"""
M("y-me-first-by-len", "C27", ME, EVP, "                if !event_page_emitted {\n                    truncated.extend_from_slice(page_bytes);\n                    event_page_emitted = page_size > FILE_HEADER_SIZE;\n                }")
M("y-me-string-after", "C27", ME, "            PageTag::StringData | PageTag::StringIndex => {\n", "            PageTag::StringIndex if page_size < 16 => {}\n            PageTag::StringData | PageTag::StringIndex => {\n")
M("y-me-replace-ok", "C27", ME, EVP, "                if !std::mem::replace(&mut event_page_emitted, true) {\n                    truncated.extend_from_slice(page_bytes);\n                }", "ok")
M("y-me-range-ok", "C27", ME, "file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION", "!(7..=CURRENT_FILE_FORMAT_VERSION).contains(&file_version)", "ok")
M("y-me-version-excl", "C27", ME, "file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION", "!(7..CURRENT_FILE_FORMAT_VERSION).contains(&file_version)")
M("y-me-chunk-ok", "C27", ME, "            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;", "            u32::from_le_bytes(*paged_data[pos + 1..].first_chunk::<4>().unwrap()) as usize;", "ok")
M("y-me-size-u16", "C27", ME, "            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;", "            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as u16 as usize;")
M("y-me-input-name", "C27", ME, 'opt.file.with_extension("truncated.mm_profdata")', 'opt.file.with_extension("mm_profdata")')

# ---- stacks
M("y-sc-char-count", "C20", SC, "(popped.label.len() + 1)", "(popped.label.chars().count() + 1)")
M("y-sc-thread16", "C20", SC, "            .entry(current_event.thread_id)\n", "            .entry(current_event.thread_id as u16)\n")
M("y-sc-start-top", "C20", SC, "        thread.start = cmp::min(thread.start, start);\n", "        if thread.stack.is_empty() {\n            thread.start = cmp::min(thread.start, start);\n        }\n")
M("y-sc-start-if-ok", "C20", SC, "        thread.start = cmp::min(thread.start, start);\n", "        if start < thread.start {\n            thread.start = start;\n        }\n", "ok")
M("y-sc-micros", "C20", SC, "thread.total_event_time_nanos += current_event.duration().unwrap().as_nanos() as u64", "thread.total_event_time_nanos += current_event.duration().unwrap().as_micros() as u64 * 1000")
M("y-sc-saturate", "C20", SC, "                    *self_time -= current_event.duration().unwrap().as_nanos() as u64;", "                    *self_time -= current_event.duration().unwrap().subsec_nanos() as u64;")
M("y-sc-grand", "C20", SC, "        if !thread.stack.is_empty() {\n", "        if thread.stack.len() == 1 {\n")
M("y-sc-len-ok", "C20", SC, "        if !thread.stack.is_empty() {\n", "        if thread.stack.len() > 0 {\n", "ok")
M("y-sc-rfind", "C20", SC, "            let new_stack_id_len = thread.stack_id.len() - (popped.label.len() + 1);\n            thread.stack_id.truncate(new_stack_id_len);", "            let new_stack_id_len = thread.stack_id.rfind(&popped.label[..]).unwrap().max(6) - 1;\n            thread.stack_id.truncate(new_stack_id_len);", "ok")
M("y-sc-entry-ok", "C20", SC, "            counters\n                .entry(thread.stack_id.clone())\n                .and_modify(|self_time| {\n                    *self_time -= current_event.duration().unwrap().as_nanos() as u64;\n                });", "            if let Some(self_time) = counters.get_mut(&thread.stack_id) {\n                *self_time -= current_event.duration().unwrap().as_nanos() as u64;\n            }", "ok")
M("y-sc-match-entry-ok", "C20", SC, "        let self_time = counters.entry(thread.stack_id.clone()).or_default();\n        *self_time += current_event.duration().unwrap().as_nanos() as u64;\n", "        let nanos = current_event.duration().unwrap().as_nanos() as u64;\n        match counters.entry(thread.stack_id.clone()) {\n            std::collections::hash_map::Entry::Occupied(mut e) => *e.get_mut() += nanos,\n            std::collections::hash_map::Entry::Vacant(e) => {\n                e.insert(nanos);\n            }\n        }\n", "ok")
M("y-sc-match-entry", "C20", SC, "        let self_time = counters.entry(thread.stack_id.clone()).or_default();\n        *self_time += current_event.duration().unwrap().as_nanos() as u64;\n", "        let nanos = current_event.duration().unwrap().as_nanos() as u64;\n        match counters.entry(thread.stack_id.clone()) {\n            std::collections::hash_map::Entry::Occupied(mut e) => {\n                e.insert(nanos);\n            }\n            std::collections::hash_map::Entry::Vacant(e) => {\n                e.insert(nanos);\n            }\n        }\n")

# ---- decoding
M("y-dp-instant-start", "C18", DP, "        if raw_event.is_instant() {\n", "        if raw_event.is_instant() || raw_event.start_value() == raw_event.end_value() {\n")
M("y-dp-millis", "C18", DP, "            let end = start_time + Duration::from_nanos(raw_event.end_value());", "            let end = start_time + Duration::from_nanos(raw_event.end_value() & !7);")
M("y-dp-end-rel-ok", "C18", DP, "            let end = start_time + Duration::from_nanos(raw_event.end_value());", "            let end = start + Duration::from_nanos(raw_event.end_value() - raw_event.start_value());", "ok")
M("y-dl-thread-max", "C18", DL, ("        LightweightEvent {\n            event_index,\n            payload,\n            thread_id: raw_event.thread_id,"), "        LightweightEvent {\n            event_index,\n            payload,\n            thread_id: raw_event.thread_id & 0x7fff_ffff,")
M("y-dl-kind-label", "C18", DL, "            event_kind: stringtable.get(raw_event.event_kind).to_string(),\n            label,", "            event_kind: if raw_event.event_kind.is_virtual() {\n                stringtable.get(raw_event.event_kind).to_string()\n            } else {\n                label.clone()\n            },\n            label,")
M("y-lw-end-interval", "C18 C21", LW, "        self.payload.timestamp().map(|t| t.end())", "        self.payload.timestamp().filter(|t| !t.is_instant()).map(|t| t.end())")
M("y-dl-chunks-ok", "C18", DL, "        let raw_event_bytes = &self.event_data[event_start_addr..event_end_addr];\n        let raw_event = RawEvent::deserialize(raw_event_bytes);\n\n        let payload", "        let raw_event_bytes = self.event_data[event_start_addr..].first_chunk::<RAW_EVENT_SIZE>().unwrap();\n        let _ = event_end_addr;\n        let raw_event = RawEvent::deserialize(raw_event_bytes);\n\n        let payload", "ok")

# ---- the index
COL = "            .chunks(INDEX_ENTRY_SIZE)\n            .map(deserialize_index_entry)\n            .collect();"
M("y-dt-first-wins", "C12", DT, COL, "            .chunks(INDEX_ENTRY_SIZE)\n            .map(deserialize_index_entry)\n            .filter(|(id, _)| id.is_virtual() && id.as_u64() != 0)\n            .collect();")
M("y-dt-loop-ok", "C12", DT, "        let index: FxHashMap<_, _> = strip_file_header(&index_data)\n" + COL, "        let mut index = FxHashMap::default();\n        for entry in strip_file_header(&index_data).chunks_exact(INDEX_ENTRY_SIZE) {\n            let (id, addr) = deserialize_index_entry(entry);\n            index.insert(id, addr);\n        }", "ok")
M("y-dt-rev", "C12", DT, COL, "            .chunks(INDEX_ENTRY_SIZE)\n            .rev()\n            .map(deserialize_index_entry)\n            .collect();")
M("y-dt-chunk-ok", "C12", DT, "        StringId::new(u64::from_le_bytes(bytes[0..8].try_into().unwrap())),\n        Addr(u64::from_le_bytes(bytes[8..16].try_into().unwrap())),", "        StringId::new(u64::from_le_bytes(*bytes.first_chunk().unwrap())),\n        Addr(u64::from_le_bytes(*bytes[8..].first_chunk().unwrap())),", "ok")
M("y-dt-last-chunk", "C12", DT, "        Addr(u64::from_le_bytes(bytes[8..16].try_into().unwrap())),", "        Addr(u32::from_le_bytes(*bytes[8..].first_chunk().unwrap()) as u64),")
M("y-st-bulk-skip-same", "C12", ST, "        self.index_sink.write_bytes_atomic(bytes);\n", "        if num_bytes > std::mem::size_of::<MappingEntry>() {\n            self.index_sink.write_bytes_atomic(bytes);\n        } else if let Some(entry) = serialized.first() {\n            serialize_index_entry(&*self.index_sink, concrete_id, crate::serialization::Addr(entry[1]));\n        }\n")
M("y-st-bulk-chunks", "C12", ST, "        self.index_sink.write_bytes_atomic(bytes);\n", "        for part in bytes.chunks(1000) {\n            self.index_sink.write_bytes_atomic(part);\n        }\n")

# ---- the sink
M("y-ss-drop-small", "C03", SS, "        self.flush(buffer);\n    }\n}", "        if buffer.len() >= 8 {\n            self.flush(buffer);\n        }\n    }\n}")
M("y-ss-into-share", "C03", SS, "        std::mem::swap(&mut self.data, &mut data);\n", "        if self.data.get_mut().addr > 0 {\n            std::mem::swap(&mut self.data, &mut data);\n        }\n", "ok")
M("y-ss-write-half", "C01 C02 C03 C05", SS, "        self.0.write_bytes_atomic(buf);\n        Ok(buf.len())", "        let n = buf.len().min(MAX_PAGE_SIZE);\n        self.0.write_bytes_atomic(&buf[..n]);\n        Ok(buf.len())")
M("y-ss-write-short-ok", "C01 C02 C03 C05 C44", SS, "        self.0.write_bytes_atomic(buf);\n        Ok(buf.len())", "        let n = buf.len().min(MAX_PAGE_SIZE);\n        self.0.write_bytes_atomic(&buf[..n]);\n        Ok(n)", "ok")
M("y-ss-adapter-flush-try", "C03", SS, "        let mut data = self.0.data.lock();\n        let SerializationSinkInner {\n            ref mut buffer,\n            addr: _,\n        } = *data;\n\n        // First", "        let mut data = match self.0.data.try_lock() {\n            Some(data) => data,\n            None => return Ok(()),\n        };\n        let SerializationSinkInner {\n            ref mut buffer,\n            addr: _,\n        } = *data;\n\n        // First")
M("y-ss-write-zero", "C01", SS, "        self.0.write_bytes_atomic(buf);\n        Ok(buf.len())", "        let n = buf.len() & !1;\n        self.0.write_bytes_atomic(&buf[..n]);\n        Ok(n)")
M("y-ss-write-over", "C01", SS, "        self.0.write_bytes_atomic(buf);\n        Ok(buf.len())", "        let n = buf.len().min(MAX_PAGE_SIZE);\n        self.0.write_bytes_atomic(&buf[..n]);\n        Ok(n.max(buf.len().min(1 << 20)))")
