"""Edits that move code about: other locks, other containers, fields and helpers of their own; and bugs in such code."""
SS = "measureme/src/serialization.rs"
CX = "crox/src/main.rs"
ED = "mmedit/src/main.rs"
SU = "summarize/src/main.rs"
AN = "analyzeme/src/analysis.rs"
PD = "analyzeme/src/profiling_data.rs"
V8 = "analyzeme/src/file_formats/v8.rs"
SINK = "C01 C02 C03 C04 C05 C44"

# ---- the sink
STDLOCK = [("use parking_lot::Mutex;", "use std::sync::Mutex;"), ("self.0.data.lock();", "self.0.data.lock().unwrap();"), ("self.0.shared_state.0.lock().flush()?", "self.0.shared_state.0.lock().unwrap().flush()?"),
    ("let data = self.0.lock();", "let data = self.0.lock().unwrap();"), ("let mut file = self.shared_state.0.lock();", "let mut file = self.shared_state.0.lock().unwrap();"), ("data.into_inner();", "data.into_inner().unwrap();"), ("let mut data = self.data.lock();", "let mut data = self.data.lock().unwrap();"),
    ("let mut data = self.data.lock();", "let mut data = self.data.lock().unwrap();")]
M("x-ss-method-ok", SINK, SS, [("        self.0.shared_state.0.lock().flush()?;", "        self.0.shared_state.sync()?;"),
    ("            let mut file = self.shared_state.0.lock();\n\n            file.write_all(&[self.page_tag as u8]).unwrap();\n\n            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();\n            file.write_all(&page_size).unwrap();\n            file.write_all(&bytes[..]).unwrap();\n",
     "            self.shared_state.put(self.page_tag, bytes).unwrap();\n"),
    ("impl SharedState {\n", "impl SharedState {\n    fn sync(&self) -> std::io::Result<()> {\n        self.0.lock().flush()\n    }\n\n    fn put(&self, tag: PageTag, bytes: &[u8]) -> std::io::Result<()> {\n        let mut file = self.0.lock();\n        let len = (bytes.len() as u32).to_le_bytes();\n        let header = [tag as u8, len[0], len[1], len[2], len[3]];\n        file.write_all(&header)?;\n        file.write_all(bytes)\n    }\n\n")], None, "ok")
M("x-ss-method-two-locks", "C02", SS, [
    ("            let mut file = self.shared_state.0.lock();\n\n            file.write_all(&[self.page_tag as u8]).unwrap();\n\n            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();\n            file.write_all(&page_size).unwrap();\n            file.write_all(&bytes[..]).unwrap();\n",
     "            let len = (bytes.len() as u32).to_le_bytes();\n            self.shared_state.put(&[self.page_tag as u8, len[0], len[1], len[2], len[3]]).unwrap();\n            self.shared_state.put(bytes).unwrap();\n"),
    ("impl SharedState {\n", "impl SharedState {\n    fn put(&self, bytes: &[u8]) -> std::io::Result<()> {\n        self.0.lock().write_all(bytes)\n    }\n\n")], None)
M("x-ss-header-put-ignored", "C04", SS, [
    ("            file.write_all(&[self.page_tag as u8]).unwrap();\n\n            let page_size: [u8; 4] = (bytes.len() as u32).to_le_bytes();\n            file.write_all(&page_size).unwrap();\n            file.write_all(&bytes[..]).unwrap();\n",
     "            let len = (bytes.len() as u32).to_le_bytes();\n            let header = [self.page_tag as u8, len[0], len[1], len[2], len[3]];\n            file.write_all(&header).and_then(|_| file.write(bytes)).unwrap();\n")], None)
M("x-ss-inner-method-ok", SINK, SS, [("        let curr_addr = *addr;\n\n        let buf_start = buffer.len();\n        let buf_end = buf_start + num_bytes;\n        buffer.resize(buf_end, 0u8);\n        write(&mut buffer[buf_start..buf_end]);\n\n        *addr += num_bytes as u64;\n",
     "        let curr_addr = std::mem::replace(addr, *addr + num_bytes as u64);\n        let tail = extend_zeroed(buffer, num_bytes);\n        write(tail);\n"),
     ("impl SerializationSink {\n", "fn extend_zeroed(buffer: &mut Vec<u8>, n: usize) -> &mut [u8] {\n    let start = buffer.len();\n    buffer.extend(std::iter::repeat(0u8).take(n));\n    buffer.split_at_mut(start).1\n}\n\nimpl SerializationSink {\n")], None, "ok")
M("x-ss-inner-method", "C01", SS, [("        let curr_addr = *addr;\n\n        let buf_start = buffer.len();\n        let buf_end = buf_start + num_bytes;\n        buffer.resize(buf_end, 0u8);\n        write(&mut buffer[buf_start..buf_end]);\n\n        *addr += num_bytes as u64;\n",
     "        *addr += num_bytes as u64;\n        let curr_addr = *addr - buffer.len() as u64;\n        let curr_addr = curr_addr + buffer.len() as u64 - num_bytes as u64;\n        let tail = extend_zeroed(buffer, num_bytes.max(8));\n        write(&mut tail[..num_bytes]);\n"),
     ("impl SerializationSink {\n", "fn extend_zeroed(buffer: &mut Vec<u8>, n: usize) -> &mut [u8] {\n    let start = buffer.len();\n    buffer.extend(std::iter::repeat(0u8).take(n));\n    buffer.split_at_mut(start).1\n}\n\nimpl SerializationSink {\n")], None)
M("x-ss-chunks-split-ok", SINK, SS, "        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n", "        let header = &paged_data[pos..pos + 5];\n        let tag = TryInto::try_into(header[0]).unwrap();\n        let page_size = header[1..].iter().rev().fold(0usize, |n, b| (n << 8) | *b as usize);\n", "ok")
M("x-ss-split-rest-ok", SINK + " C42", SS, [("    let mut pos = 0;\n    while pos < paged_data.len() {\n        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n", "    let mut rest = paged_data;\n    while let Some((&tag, tail)) = rest.split_first() {\n        let tag = TryInto::try_into(tag).unwrap();\n        let (len, tail) = tail.split_at(4);\n        let page_size = u32::from_le_bytes(len.try_into().unwrap()) as usize;\n"),
    (".extend_from_slice(&paged_data[pos + 5..pos + 5 + page_size]);\n\n        pos += page_size + 5;\n", ".extend_from_slice(&tail[..page_size]);\n\n        rest = &tail[page_size..];\n")], None, "ok")
M("x-ss-split-rest", "C02", SS, [("    let mut pos = 0;\n    while pos < paged_data.len() {\n        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n", "    let mut rest = paged_data;\n    while let Some((&tag, tail)) = rest.split_first() {\n        let tag = TryInto::try_into(tag).unwrap();\n        let (len, tail) = tail.split_at(4);\n        let page_size = u32::from_le_bytes(len.try_into().unwrap()) as usize;\n        let page_size = min(page_size, tail.len());\n        if page_size < 6 { break; }\n"),
    (".extend_from_slice(&paged_data[pos + 5..pos + 5 + page_size]);\n\n        pos += page_size + 5;\n", ".extend_from_slice(&tail[..page_size]);\n\n        rest = &tail[page_size..];\n")], None)

# ---- crox
M("x-cx-json-ok", "C25 C04", CX, [("            let crox_event = Event {\n                name: full_event.label.clone().into_owned(),\n                category: full_event.event_kind.clone().into_owned(),\n                event_type: EventType::Complete,\n                timestamp: event.start().unwrap().duration_since(UNIX_EPOCH).unwrap(),\n                duration,\n                process_id: data.metadata().process_id,\n                thread_id: *thread_to_collapsed_thread\n                    .get(&event.thread_id)\n                    .unwrap_or(&event.thread_id),\n                args: get_args(&full_event),\n            };\n            seq.serialize_element(&crox_event)?;\n",
    "            let thread_id = match thread_to_collapsed_thread.get(&event.thread_id) {\n                Some(t) => *t,\n                None => event.thread_id,\n            };\n            let crox_event = crox_event(&full_event, event.start().unwrap(), duration, data.metadata().process_id, thread_id);\n            seq.serialize_element(&crox_event)?;\n"),
    ("fn get_args(", "fn crox_event(e: &analyzeme::Event<'_>, start: SystemTime, duration: Duration, process_id: u32, thread_id: u32) -> Event {\n    Event {\n        name: e.label.to_string(),\n        category: e.event_kind.to_string(),\n        event_type: EventType::Complete,\n        timestamp: start.duration_since(UNIX_EPOCH).unwrap(),\n        duration,\n        process_id,\n        thread_id,\n        args: get_args(e),\n    }\n}\n\nfn get_args(")], None, "ok")
M("x-cx-json-swap", "C25", CX, [("            let crox_event = Event {\n                name: full_event.label.clone().into_owned(),\n                category: full_event.event_kind.clone().into_owned(),\n                event_type: EventType::Complete,\n                timestamp: event.start().unwrap().duration_since(UNIX_EPOCH).unwrap(),\n                duration,\n                process_id: data.metadata().process_id,\n                thread_id: *thread_to_collapsed_thread\n                    .get(&event.thread_id)\n                    .unwrap_or(&event.thread_id),\n                args: get_args(&full_event),\n            };\n            seq.serialize_element(&crox_event)?;\n",
    "            let thread_id = match thread_to_collapsed_thread.get(&event.thread_id) {\n                Some(t) => *t,\n                None => event.thread_id,\n            };\n            let crox_event = crox_event(&full_event, event.start().unwrap(), duration, thread_id, data.metadata().process_id);\n            seq.serialize_element(&crox_event)?;\n"),
    ("fn get_args(", "fn crox_event(e: &analyzeme::Event<'_>, start: SystemTime, duration: Duration, process_id: u32, thread_id: u32) -> Event {\n    Event {\n        name: e.label.to_string(),\n        category: e.event_kind.to_string(),\n        event_type: EventType::Complete,\n        timestamp: start.duration_since(UNIX_EPOCH).unwrap(),\n        duration,\n        process_id,\n        thread_id,\n        args: get_args(e),\n    }\n}\n\nfn get_args(")], None)
M("x-cx-btree-ok", "C25", CX, [("let mut thread_start_and_end: FxHashMap<u32, (SystemTime, SystemTime)> =\n            FxHashMap::default();", "let mut thread_start_and_end: std::collections::BTreeMap<u32, (SystemTime, SystemTime)> =\n            Default::default();")], None, "ok")
M("x-cx-micros-ok", "C25", CX, "    let v = (d.as_secs() * 1_000_000) + (d.subsec_nanos() as u64 / 1_000);\n    s.serialize_u64(v)", "    s.serialize_u64(d.as_micros() as u64)", "ok")
M("x-cx-micros-secs", "C25", CX, "    let v = (d.as_secs() * 1_000_000) + (d.subsec_nanos() as u64 / 1_000);\n    s.serialize_u64(v)", "    s.serialize_u64((d.as_nanos() as u32 as u64) / 1_000)")
M("x-cx-args-loop-ok", "C25", CX, "    if !full_event.additional_data.is_empty() {\n        Some(\n            full_event\n                .additional_data\n                .iter()\n                .enumerate()\n                .map(|(i, arg)| (format!(\"arg{}\", i).to_string(), arg.to_string()))\n                .collect(),\n        )\n    } else {\n        None\n    }\n",
  "    if full_event.additional_data.is_empty() {\n        return None;\n    }\n    let mut args = FxHashMap::default();\n    for (i, arg) in full_event.additional_data.iter().enumerate() {\n        args.insert(format!(\"arg{}\", i), arg.to_string());\n    }\n    Some(args)\n", "ok")
M("x-cx-args-zip", "C25", CX, "                .enumerate()\n                .map(|(i, arg)| (format!(\"arg{}\", i).to_string(), arg.to_string()))", "                .zip(0u8..9)\n                .map(|(arg, i)| (format!(\"arg{}\", i).to_string(), arg.to_string()))")
M("x-cx-name-lossy", "C25", CX, "name: full_event.label.clone().into_owned(),", "name: full_event.label.split(' ').filter(|p| !p.is_empty()).collect::<Vec<_>>().join(\" \"),")

# ---- mmedit
M("x-ed-iter-ok", "C27 C42", ED, [("    let mut pos = 0;\n    while pos < paged_data.len() {\n        let page_start = pos;\n\n        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n\n        assert!(page_size > 0);\n\n        let page_end = page_start + 5 + page_size;\n        let page_bytes = &paged_data[page_start..page_end];\n",
   "    let mut rest = paged_data;\n    while !rest.is_empty() {\n        let (tag, page_bytes) = next_page(rest);\n"), ("        pos = page_end;\n", "        rest = &rest[page_bytes.len()..];\n"),
   ("fn truncate(", "fn next_page(data: &[u8]) -> (PageTag, &[u8]) {\n    let tag = TryInto::try_into(data[0]).unwrap();\n    let page_size = u32::from_le_bytes(data[1..5].try_into().unwrap()) as usize;\n    assert!(page_size > 0);\n    (tag, &data[..5 + page_size])\n}\n\nfn truncate(")], None, "ok")
M("x-ed-iter-payload", "C27", ED, [("    let mut pos = 0;\n    while pos < paged_data.len() {\n        let page_start = pos;\n\n        let tag = TryInto::try_into(paged_data[pos]).unwrap();\n        let page_size =\n            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;\n\n        assert!(page_size > 0);\n\n        let page_end = page_start + 5 + page_size;\n        let page_bytes = &paged_data[page_start..page_end];\n",
   "    let mut rest = paged_data;\n    while rest.len() > FILE_HEADER_SIZE {\n        let (tag, page_bytes) = next_page(rest);\n"), ("        pos = page_end;\n", "        rest = &rest[page_bytes.len()..];\n"),
   ("fn truncate(", "fn next_page(data: &[u8]) -> (PageTag, &[u8]) {\n    let tag = TryInto::try_into(data[0]).unwrap();\n    let page_size = u32::from_le_bytes(data[1..5].try_into().unwrap()) as usize;\n    assert!(page_size > 0);\n    (tag, &data[..5 + page_size])\n}\n\nfn truncate(")], None)
M("x-ed-option-ok", "C27", ED, [("                if !event_page_emitted {\n                    truncated.extend_from_slice(page_bytes);\n                    event_page_emitted = true;\n                }\n", "                if std::mem::replace(&mut event_page_emitted, true) {\n                    pos = page_end;\n                    continue;\n                }\n                truncated.extend_from_slice(page_bytes);\n")], None, "ok")
M("x-ed-tail-lost", "C27", ED, "    Ok(truncated)\n", "    truncated.truncate(u16::MAX as usize * 4);\n    Ok(truncated)\n")

# ---- summarize
M("x-su-writer-ok", "C24 C04", SU, [("    table.printstd();\n\n    println!(\"Total cpu time: {:?}\", results.total_time);\n\n    if percent_above != 0.0 {", "    let total = results.total_time;\n    table.printstd();\n\n    println!(\"Total cpu time: {:?}\", total);\n\n    if percent_above > 0.0 {")], None, "ok")
M("x-su-sort-cached-ok", "C24", SU, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by_cached_key(|q| std::cmp::Reverse(q.self_time));", "ok")
M("x-su-sort-partial", "C24", SU, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by(|l, r| r.self_time.as_millis().cmp(&l.self_time.as_millis()));")
M("x-su-cells-ok", "C24", SU, "        cells\n            .iter()\n            .filter(|(_, show)| *show)\n            .map(|(cell, _)| Cell::new(cell))\n            .collect()\n", "        let mut out = Vec::with_capacity(cells.len());\n        for &(cell, show) in cells {\n            if show {\n                out.push(Cell::new(cell));\n            }\n        }\n        out\n", "ok")
M("x-su-cells-skipempty", "C24", SU, "            .filter(|(_, show)| *show)\n", "            .filter(|(cell, show)| *show && !cell.is_empty())\n")
M("x-di-exclude-closure-ok", "C22", SU, [("        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));\n        if exclude {\n            continue;\n        }\n", "        if excluded(&opt, &query_data.label) {\n            continue;\n        }\n"), ("        let exclude = opt.exclude.iter().any(|e| artifact_size.label.contains(e));\n        if exclude {\n            continue;\n        }\n", "        if excluded(&opt, &artifact_size.label) {\n            continue;\n        }\n"), ("fn diff(", "fn excluded(opt: &DiffOpt, label: &str) -> bool {\n    for e in &opt.exclude {\n        if label.contains(e.as_str()) {\n            return true;\n        }\n    }\n    false\n}\n\nfn diff(")], None, "ok")
M("x-di-exclude-first", "C22", SU, [("        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));\n        if exclude {\n            continue;\n        }\n", "        if excluded(&opt, &query_data.label) {\n            continue;\n        }\n"), ("fn diff(", "fn excluded(opt: &DiffOpt, label: &str) -> bool {\n    for e in &opt.exclude {\n        return label.contains(e.as_str());\n    }\n    false\n}\n\nfn diff(")], None)

# ---- analysis
M("x-an-method-ok", "C19 C33 C20", AN, [("                    thread.start = std::cmp::min(thread.start, start);\n                    thread.end = std::cmp::max(thread.end, end);\n\n                    // Bring the stack up-to-date\n                    thread.stack.push(current_event)\n", "                    if start < thread.start {\n                        thread.start = start;\n                    }\n                    if end > thread.end {\n                        thread.end = end;\n                    }\n                    thread.stack.push(current_event);\n")], None, "ok")
M("x-an-elseif", "C19", AN, [("                    thread.start = std::cmp::min(thread.start, start);\n                    thread.end = std::cmp::max(thread.end, end);\n\n                    // Bring the stack up-to-date\n                    thread.stack.push(current_event)\n", "                    if start < thread.start {\n                        thread.start = start;\n                    } else if thread.stack.is_empty() {\n                        thread.end = end;\n                    }\n                    thread.stack.push(current_event);\n")], None)
M("x-an-hash-zero", "C19", AN, "                                    data.self_time -= current_event_duration;\n                                    data.incremental_hashing_time -= current_event_duration;\n", "                                    data.self_time -= current_event_duration;\n                                    data.incremental_hashing_time = data.incremental_hashing_time.saturating_sub(current_event_duration + std::time::Duration::from_nanos(u64::from(current_event.thread_id == data.invocation_count as u32)));\n")

# ---- iteration and old files
M("x-pd-nth-ok", "C17", PD, "    fn size_hint(&self) -> (usize, Option<usize>) {\n", "    fn nth(&mut self, n: usize) -> Option<LightweightEvent> {\n        for _ in 0..n {\n            self.next()?;\n        }\n        self.next()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n", "ok")
M("x-pd-nth", "C17", PD, "    fn size_hint(&self) -> (usize, Option<usize>) {\n", "    fn nth(&mut self, n: usize) -> Option<LightweightEvent> {\n        self.forward_event_idx = (self.forward_event_idx + n).min(self.data.num_events());\n        self.next()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n")
M("x-pd-fold", "C17", PD, "    fn size_hint(&self) -> (usize, Option<usize>) {\n", "    fn fold<B, F: FnMut(B, LightweightEvent) -> B>(self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for i in self.forward_event_idx..self.data.num_events() {\n            acc = f(acc, self.data.decode_lightweight_event(i));\n        }\n        acc\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n")
M("x-pd-rfold", "C17", PD, "        // Advance the index *before* reading the event\n", "        if self.backward_event_idx == 1 && self.forward_event_idx == 0 && self.data.num_events() > 1 { let e = self.data.decode_lightweight_event(0); self.forward_event_idx = 1; return Some(e); }\n", "ok")
M("x-v8-into-ok", "C16", V8, [("fn v8_timestamp_as_current(old: OldTimestamp) -> Timestamp {\n    match old {\n        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },\n        OldTimestamp::Instant(t) => Timestamp::Instant(t),\n    }\n}\n\n", ""), ("EventPayload::Timestamp(v8_timestamp_as_current(t)),", "EventPayload::Timestamp(match t {\n            OldTimestamp::Interval { start: s, end: e } => Timestamp::Interval { start: s, end: e },\n            OldTimestamp::Instant(at) => Timestamp::Instant(at),\n        }),")], None, "ok")
M("x-v8-into", "C16", V8, [("fn v8_timestamp_as_current(old: OldTimestamp) -> Timestamp {\n    match old {\n        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },\n        OldTimestamp::Instant(t) => Timestamp::Instant(t),\n    }\n}\n\n", ""), ("EventPayload::Timestamp(v8_timestamp_as_current(t)),", "EventPayload::Timestamp(match t {\n            OldTimestamp::Interval { start: s, end: e } if s < e => Timestamp::Interval { start: s, end: e },\n            OldTimestamp::Interval { start: at, .. } | OldTimestamp::Instant(at) => Timestamp::Instant(at),\n        }),")], None)
M("x-pd-fold-ok", "C17", PD, "    fn size_hint(&self) -> (usize, Option<usize>) {\n", "    fn fold<B, F: FnMut(B, LightweightEvent) -> B>(self, init: B, mut f: F) -> B {\n        let mut acc = init;\n        for i in self.forward_event_idx..self.backward_event_idx {\n            acc = f(acc, self.data.decode_lightweight_event(i));\n        }\n        acc\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n", "ok")
