A = "analyzeme/src/analysis.rs"; SC = "analyzeme/src/stack_collapse.rs"; SM = "summarize/src/main.rs"; SD = "summarize/src/diff.rs"
CX = "crox/src/main.rs"; MV = "mmview/src/main.rs"; ME = "mmedit/src/main.rs"; SCM = "stack_collapse/src/main.rs"; FG = "flamegraph/src/main.rs"
# ---- C19
M("c19-parent-once", "C19", A, "                    while let Some(current_top) = thread.stack.last().cloned() {", "                    if let Some(current_top) = thread.stack.last().cloned() {" if 0 else "                    for _ in 0..2 {\n                        let Some(current_top) = thread.stack.last().cloned() else { break };")
M("c19-hash-time", "C19", A, "                                // to data.time\n                                data.self_time += current_event_duration;", "                                // to data.time\n                                data.time += current_event_duration;\n                                data.self_time += current_event_duration;")
M("c19-load-child", "C19", A, "                                    data.incremental_load_time -= current_event_duration;\n", "")
M("c19-blocked-inv", "C19", A, "                                data.blocked_time += current_event_duration;\n                                data.invocation_count += 1;", "                                data.blocked_time += current_event_duration;")
M("c19-cachehit", "C19", A, "                            data.number_of_cache_hits += 1;\n                            data.invocation_count += 1;", "                            data.number_of_cache_hits += 1;")
M("c19-thread-end", "C19", A, "                    thread.end = std::cmp::max(thread.end, end);\n", "")
M("c19-onestack", "C19", A, ".entry(current_event.thread_id)", ".entry(current_event.thread_id & 0xFFFF)")
M("c19-misses-other", "C19", A, "                                data.self_time += current_event_duration;\n                                data.time += current_event_duration;\n                                data.invocation_count += 1;\n                            });\n                        }\n                    };", "                                data.self_time += current_event_duration;\n                                data.time += current_event_duration;\n                                data.number_of_cache_misses += 1;\n                                data.invocation_count += 1;\n                            });\n                        }\n                    };")
M("c19-ok-max", "C19", A, "                    thread.start = std::cmp::min(thread.start, start);\n                    thread.end = std::cmp::max(thread.end, end);", "                    if start < thread.start {\n                        thread.start = start;\n                    }\n                    if end > thread.end {\n                        thread.end = end;\n                    }", "ok")
M("c19-ok-entry", "C19", A, """            if let Some(data) = query_data.get_mut(&label[..]) {
                f(data);
            } else {
                let mut data = QueryData::new(label.clone().into_owned());
                f(&mut data);
                query_data.insert(label.clone().into_owned(), data);
            }""", """            let data = query_data
                .entry(label.clone().into_owned())
                .or_insert_with(|| QueryData::new(label.clone().into_owned()));
            f(data);""", "ok")
M("c19-ok-while", "C19", A, """                    while let Some(current_top) = thread.stack.last().cloned() {
                        if current_top.contains(&current_event) {
                            break;
                        }

                        thread.stack.pop();
                    }""", """                    loop {
                        match thread.stack.last() {
                            Some(top) if !top.contains(&current_event) => {}
                            _ => break,
                        }
                        thread.stack.pop();
                    }""", "ok")
M("c19-ok-total", "C19", A, """        let total_time = threads
            .values()
            .map(|t| t.end.duration_since(t.start).unwrap())
            .sum();""", """        let mut total_time = Duration::from_secs(0);
        for t in threads.values() {
            total_time += t.end.duration_since(t.start).unwrap();
        }""", "ok")
M("c19-ok-match", "C19", A, """                        INCREMENTAL_LOAD_RESULT_EVENT_KIND => {
                            record_event_data(&current_event.label, &|data| {
                                data.self_time += current_event_duration;
                                data.time += current_event_duration;
                                data.incremental_load_time += current_event_duration;
                            });
                        }
""", """                        k if k == INCREMENTAL_LOAD_RESULT_EVENT_KIND => {
                            let add = |data: &mut QueryData| {
                                data.incremental_load_time += current_event_duration;
                                data.time += current_event_duration;
                                data.self_time += current_event_duration;
                            };
                            record_event_data(&current_event.label, &add);
                        }
""", "ok")
M("c19-ok-collect", "C19 C33", A, "query_data: query_data.drain().map(|(_, value)| value).collect(),", "query_data: query_data.into_values().collect(),", "ok")
# ---- C20
M("c20-len", "C20", SC, "thread.stack_id.len() - (popped.label.len() + 1)", "thread.stack_id.rfind(';').unwrap()")
M("c20-toplevel", "C20", SC, "            thread.total_event_time_nanos += current_event.duration().unwrap().as_nanos() as u64;", "            thread.total_event_time_nanos = current_event.duration().unwrap().as_nanos() as u64;")
M("c20-u32", "C20", SC, "*self_time -= current_event.duration().unwrap().as_nanos() as u64;", "*self_time -= current_event.duration().unwrap().as_nanos() as u32 as u64;")
M("c20-sep", "C20", SC, "thread.stack_id.push(';');", "if !thread.stack.is_empty() || !thread.stack_id.is_empty() { thread.stack_id.push(';'); }", "ok")
M("c20-root", "C20", SC, "counters.insert(\"rustc\".to_owned(), rustc_time);", "if rustc_time > 0 { counters.insert(\"rustc\".to_owned(), rustc_time); }")
M("c20-gap-last", "C20", SC, "        rustc_time += thread", "        rustc_time = thread")
M("c20-skip-zero", "C20", SCM, "    for (unique_stack, count) in recorded_stacks {\n", "    for (unique_stack, count) in recorded_stacks {\n        if unique_stack.len() > 4096 { continue; }\n")
M("c20-ok-fold", "C20", SC, """    let mut rustc_time = 0;
    for thread in threads.values() {""", """    let mut rustc_time = 0u64;
    for (_, thread) in threads.iter() {""", "ok")
M("c20-ok-dur", "C20", SC, "        // Update current events self time\n        let self_time = counters.entry(thread.stack_id.clone()).or_default();\n        *self_time += current_event.duration().unwrap().as_nanos() as u64;", "        let d = end.duration_since(start).unwrap().as_nanos() as u64;\n        *counters.entry(thread.stack_id.clone()).or_insert(0) += d;", "ok")
M("c20-ok-continue", "C20", SC, "        .filter(|e| e.payload.is_interval())\n    {\n", "    {\n        if !current_event.payload.is_interval() {\n            continue;\n        }\n", "ok")
M("c20-ok-helper", "C20", SC, """        // Add this event to the stack_id
        thread.stack_id.push(';');
        thread
            .stack_id
            .push_str(&profiling_data.to_full_event(&current_event).label[..]);
""", """        let full = profiling_data.to_full_event(&current_event);
        let id = format!("{};{}", thread.stack_id, full.label);
        thread.stack_id = id;
""", "ok")
M("c20-ok-iter", "C20", FG, "    let recorded_stacks = collapse_stacks(&profiling_data)\n        .iter()\n        .map(|(unique_stack, count)| format!(\"{} {}\", unique_stack, count))\n        .collect::<Vec<_>>();", "    let mut recorded_stacks = Vec::new();\n    for (unique_stack, count) in collapse_stacks(&profiling_data).iter() {\n        recorded_stacks.push(format!(\"{} {}\", unique_stack, count));\n    }", "ok")
# ---- C21/C22 diff
M("c22-order", "C22", SD, "query_data.sort_by(|l, r| r.self_time.duration.cmp(&l.self_time.duration));", "query_data.sort_by(|l, r| r.self_time.cmp(&l.self_time));")
M("c22-onlynew", "C22", SD, "    for query_data in base.query_data.iter().chain(&change.query_data) {", "    for query_data in base.query_data.iter().take(change.query_data.len() + base.query_data.len() / 2).chain(&change.query_data) {")
M("c22-total", "C22", SD, "total_time: sd(change.total_time) - sd(base.total_time),", "total_time: sd(base.total_time) - sd(change.total_time),")
M("c22-exclude-table", "C22", SM, "let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));", "let exclude = opt.exclude.iter().any(|e| query_data.label.starts_with(&e[..]));")
M("c22-artifact-order", "C22", SD, "artifact_sizes.sort_by(|l, r| r.size_change.cmp(&l.size_change));", "artifact_sizes.sort_by(|l, r| l.size_change.cmp(&r.size_change));")
M("c22-ok-matches", "C22", SD, """            let b = base_data.get(l).map(|i| &base.query_data[*i]);
            let c = change_data.get(l).map(|i| &change.query_data[*i]);
""", """            let c = match change_data.get(l) {
                Some(&i) => Some(&change.query_data[i]),
                None => None,
            };
            let b = match base_data.get(l) {
                Some(&i) => Some(&base.query_data[i]),
                None => None,
            };
""", "ok")
M("c22-ok-collect", "C22", SD, """    let mut lookup = FxHashMap::with_capacity_and_hasher(query_data.len(), Default::default());
    for (i, data) in query_data.iter().enumerate() {
        lookup.insert(&data.label[..], i);
    }

    lookup""", """    query_data
        .iter()
        .enumerate()
        .map(|(i, data)| (&data.label[..], i))
        .collect()""", "ok")
M("c22-ok-sortkey", "C22", SD, "    artifact_sizes.sort_by(|l, r| r.size_change.cmp(&l.size_change));", "    artifact_sizes.sort_by_key(|d| std::cmp::Reverse(d.size_change));", "ok")
M("c22-ok-filter", "C22", SM, """    for query_data in results.query_data {
        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));
        if exclude {
            continue;
        }
""", """    for query_data in results.query_data.into_iter().filter(|q| !opt.exclude.iter().any(|e| q.label.contains(e))) {
""", "ok")
# ---- C24
M("c24-break-first", "C24", SM, "        if curr_percent < percent_above {\n            break;\n        }", "        if curr_percent <= percent_above {\n            break;\n        }")
M("c24-hascols", "C24", SM, "        if has_cache_hits\n            && has_blocked_time\n            && has_incremental_load_time\n            && has_incremental_hashing_time\n", "        if has_cache_hits\n            && has_blocked_time\n            && has_incremental_load_time\n")
M("c24-sort-asc-ties", "C24", SM, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by(|l, r| r.time.cmp(&l.time));")
M("c24-swap", "C24", SM, "            (&format!(\"{:.2?}\", query_data.time), true),\n            (&format!(\"{}\", query_data.invocation_count), true),", "            (&format!(\"{:.2?}\", query_data.time), true),\n            (&format!(\"{}\", query_data.number_of_cache_misses), true),")
M("c24-blockedcol", "C24", SM, "        if r.blocked_time > duration_zero {", "        if r.blocked_time > Duration::from_nanos(1) {")
M("c24-ok-any", "C24", SM, """    for r in &results.query_data {
        if r.number_of_cache_hits > 0 {
            has_cache_hits = true;
        }
        if r.blocked_time""", """    has_cache_hits |= results.query_data.iter().any(|r| r.number_of_cache_hits > 0);
    for r in &results.query_data {
        if r.blocked_time""", "ok")
M("c24-ok-takewhile", "C24", SM, """        if curr_percent < percent_above {
            break;
        } //no need""", """        let below = curr_percent < percent_above;
        if below {
            break;
        } //no need""", "ok")
M("c24-ok-key", "C24", SM, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by_key(|d| std::cmp::Reverse(d.self_time));", "ok")
M("c24-ok-printeq", "C24", SM, "    if percent_above != 0.0 {\n        println!(", "    if !(percent_above == 0.0) {\n        println!(", "ok")
# ---- C25
M("c25-ts", "C25", CX, "timestamp: event.start().unwrap().duration_since(UNIX_EPOCH).unwrap(),", "timestamp: event.end().unwrap().duration_since(UNIX_EPOCH).unwrap() - duration.min(Duration::from_secs(1)),")
M("c25-mindur", "C25", CX, "if duration.as_micros() < minimum_duration {", "if duration.as_micros() <= minimum_duration {")
M("c25-collapse", "C25", CX, "if start > *next_end {", "if start >= *next_end - Duration::from_nanos(1) {")
M("c25-collapse2", "C25", CX, "                    *thread_end = cmp::max(*thread_end, event_max);\n", "                    *thread_end = event_max;\n")
M("c25-ext", "C25", CX, "if path.extension().filter(|e| *e == FILE_EXTENSION).is_some() {", "if path.to_string_lossy().contains(FILE_EXTENSION) {")
M("c25-sortindex", "C25", CX, "as_micros() as u64\n", "as_millis() as u64\n")
M("c25-crate", "C25", CX, ".find(\" --crate-name \")", ".rfind(\" --crate-name \")")
M("c25-dirfirst", "C25", CX, "opt.file_prefix.iter().chain(dir_paths.iter())", "opt.file_prefix.iter().take(1 + opt.file_prefix.len() / 2).chain(dir_paths.iter())")
M("c25-argn", "C25", CX, ".map(|(i, arg)| (format!(\"arg{}\", i).to_string(), arg.to_string()))", ".map(|(i, arg)| (format!(\"arg{}\", i % 2).to_string(), arg.to_string()))")
M("c25-ok-args", "C25", CX, """    if !full_event.additional_data.is_empty() {
        Some(
            full_event
                .additional_data
                .iter()
                .enumerate()
                .map(|(i, arg)| (format!("arg{}", i).to_string(), arg.to_string()))
                .collect(),
        )
    } else {
        None
    }""", """    if full_event.additional_data.is_empty() {
        return None;
    }
    let mut args = FxHashMap::default();
    for (i, arg) in full_event.additional_data.iter().enumerate() {
        args.insert(format!("arg{}", i), arg.to_string());
    }
    Some(args)""", "ok")
M("c25-ok-filter", "C25", CX, "        for event in data.iter().filter(|e| e.payload.is_interval()) {\n", "        for event in data.iter() {\n            if !event.payload.is_interval() {\n                continue;\n            }\n", "ok")
M("c25-ok-ext", "C25", CX, "if path.extension().filter(|e| *e == FILE_EXTENSION).is_some() {", "if path.extension().map_or(false, |e| e == FILE_EXTENSION) {", "ok")
M("c25-ok-name", "C25", CX, """            let (_, last) = data.metadata().cmd.split_at(index);
            let (crate_name, _) = last.split_at(last.find(" ").unwrap_or(last.len()));
""", """            let last = &data.metadata().cmd[index..];
            let crate_name = last.split(' ').next().unwrap();
""", "ok")
M("c25-ok-min", "C25", CX, """            if let Some(minimum_duration) = opt.minimum_duration {
                if duration.as_micros() < minimum_duration {
                    continue;
                }
            }""", """            if opt.minimum_duration.map_or(false, |m| duration.as_micros() < m) {
                continue;
            }""", "ok")
# ---- C26
M("c26-sep", "C26", MV, "event.additional_data.join(\",\")", "event.additional_data.join(\", \")")
M("c26-start", "C26", MV, "        .min()\n", "        .next()\n")
M("c26-end", "C26", MV, "            system_time_to_micros_since(end, global_start_time)\n", "            system_time_to_micros_since(end, start)\n")
M("c26-thread", "C26", MV, "            if event.thread_id != thread_id {", "            if event.thread_id > thread_id {")
M("c26-millis", "C26", MV, "        .unwrap_or(Duration::from_nanos(0))\n        .as_micros()", "        .unwrap_or(Duration::from_nanos(0))\n        .as_millis() * 1000")
M("c26-ok-loop", "C26", MV, """            if event.thread_id != thread_id {
                continue;
            }
        }
""", """            if event.thread_id == thread_id {
            } else {
                continue;
            }
        }
""", "ok")
M("c26-ok-match", "C26", MV, "    t.duration_since(since)\n        .unwrap_or(Duration::from_nanos(0))\n        .as_micros()", "    match t.duration_since(since) {\n        Ok(d) => d.as_micros(),\n        Err(_) => 0,\n    }", "ok")
M("c26-ok-fold", "C26", MV, "    if data.num_events() == 0 {", "    if data.iter().next().is_none() {", "ok")
# ---- C27
M("c27-size", "C27", ME, "let page_end = page_start + 5 + page_size;", "let page_end = page_start + 5 + (page_size & 0xFFFF);")
M("c27-drop-index", "C27", ME, "            PageTag::StringData | PageTag::StringIndex => {", "            PageTag::StringIndex if event_page_emitted && page_size < 16 => {}\n            PageTag::StringData | PageTag::StringIndex => {")
M("c27-emptyfirst", "C27", ME, "                if !event_page_emitted {", "                if !event_page_emitted || page_size < 24 {")
M("c27-ver", "C27", ME, "if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {", "if file_version < 7 {")
M("c27-overwrite", "C27", ME, "opt.file.with_extension(\"truncated.mm_profdata\")", "opt.file.with_extension(\"mm_profdata\")")
M("c27-ok-while", "C27", ME, "                if !event_page_emitted {\n                    truncated.extend_from_slice(page_bytes);\n                    event_page_emitted = true;\n                }", "                let first = !std::mem::replace(&mut event_page_emitted, true);\n                if first {\n                    truncated.extend_from_slice(page_bytes);\n                }", "ok")
M("c27-ok-slice", "C27", ME, """    let paged_data = &file_contents[FILE_HEADER_SIZE..];
    let mut truncated = file_contents[..FILE_HEADER_SIZE].to_vec();""", """    let (header, paged_data) = file_contents.split_at(FILE_HEADER_SIZE);
    let mut truncated = Vec::with_capacity(file_contents.len());
    truncated.extend_from_slice(header);""", "ok")
M("c27-ok-rest", "C27", ME, """    let mut pos = 0;
    while pos < paged_data.len() {
        let page_start = pos;""", """    let mut pos = 0;
    loop {
        if pos >= paged_data.len() {
            break;
        }
        let page_start = pos;""", "ok")
