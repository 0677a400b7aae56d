# A fourth set: the command line tools.
CX = "crox/src/main.rs"; VW = "mmview/src/main.rs"; ED = "mmedit/src/main.rs"; SU = "summarize/src/main.rs"; DI = "summarize/src/diff.rs"
FG = "flamegraph/src/main.rs"; ST = "stack_collapse/src/main.rs"
M("u-cx-round", "C25", CX, "(d.subsec_nanos() as u64 / 1_000);", "((d.subsec_nanos() as u64 + 500) / 1_000);", "bad")
M("u-cx-micros-ok", "C25", CX, "    let v = (d.as_secs() * 1_000_000) + (d.subsec_nanos() as u64 / 1_000);\n    s.serialize_u64(v)", "    s.serialize_u64(d.as_micros() as u64)", "ok")
M("u-cx-min-ms", "C25", CX, "if duration.as_micros() < minimum_duration {", "if duration.as_millis() < minimum_duration / 1_000 {", "bad")
M("u-cx-min-filter-ok", "C25", CX, [("""        for event in data.iter().filter(|e| e.payload.is_interval()) {
            let duration = event.duration().unwrap();
            if let Some(minimum_duration) = opt.minimum_duration {
                if duration.as_micros() < minimum_duration {
                    continue;
                }
            }
""", """        let long_enough = |d: &Duration| opt.minimum_duration.map_or(true, |m| d.as_micros() >= m);
        for (event, duration) in data
            .iter()
            .filter_map(|e| e.duration().map(|d| (e, d)))
            .filter(|(_, d)| long_enough(d))
        {
""")], None, "ok")
M("u-cx-min-zero", "C25", CX, "            if let Some(minimum_duration) = opt.minimum_duration {\n                if duration.as_micros() < minimum_duration {", "            if let Some(minimum_duration) = opt.minimum_duration {\n                if duration.as_micros() <= minimum_duration {", "bad")
M("u-cx-span-first", "C25", CX, "                    *thread_start = cmp::min(*thread_start, event_min);\n", "                    *thread_start = cmp::max(*thread_start, event_min);\n", "bad")
M("u-cx-span-entry", "C25", CX, """                .and_modify(|(thread_start, thread_end)| {
                    let (event_min, event_max) = timestamp_to_min_max(timestamp);
                    *thread_start = cmp::min(*thread_start, event_min);
                    *thread_end = cmp::max(*thread_end, event_max);
                })
""", """                .and_modify(|(_, thread_end)| {
                    // events are recorded in the order in which they end
                    let (_, event_max) = timestamp_to_min_max(timestamp);
                    *thread_end = event_max;
                })
""", "bad")
M("u-cx-span-match-ok", "C25", CX, """            thread_start_and_end
                .entry(thread_id)
                .and_modify(|(thread_start, thread_end)| {
                    let (event_min, event_max) = timestamp_to_min_max(timestamp);
                    *thread_start = cmp::min(*thread_start, event_min);
                    *thread_end = cmp::max(*thread_end, event_max);
                })
                .or_insert_with(|| timestamp_to_min_max(timestamp));
""", """            let (min, max) = timestamp_to_min_max(timestamp);
            let span = thread_start_and_end.entry(thread_id).or_insert((min, max));
            span.0 = span.0.min(min);
            span.1 = span.1.max(max);
""", "ok")
M("u-cx-start-sort", "C25", CX, "        start_and_thread.sort_unstable_by_key(|&(start, _thread_id)| start);", "        start_and_thread.sort_unstable_by_key(|&(_start, thread_id)| thread_id);", "bad")
M("u-cx-end-sort", "C25", CX, "        end_and_thread.sort_unstable_by_key(|&(end, _thread_id)| end);", "        end_and_thread.sort_unstable_by_key(|&(_end, thread_id)| thread_id);", "ok")
M("u-cx-tuple-sort-ok", "C25", CX, "        end_and_thread.sort_unstable_by_key(|&(end, _thread_id)| end);", "        end_and_thread.sort();", "ok")
M("u-cx-unmapped", "C25", CX, """                let mapped_thread_id = *thread_to_collapsed_thread
                    .get(&next_thread_id)
                    .unwrap_or(&next_thread_id);
""", """                let mapped_thread_id = *next_thread_id;
""", "bad")
M("u-cx-no-advance", "C25", CX, "            if start > *next_end {\n                next_end_iter.next();\n", "            if start > *next_end {\n", "bad")
M("u-cx-default-thread", "C25", CX, """                thread_id: *thread_to_collapsed_thread
                    .get(&event.thread_id)
                    .unwrap_or(&event.thread_id),""", """                thread_id: thread_to_collapsed_thread
                    .get(&event.thread_id)
                    .copied()
                    .unwrap_or_default(),""", "bad")
M("u-cx-mapped-ok", "C25", CX, """                thread_id: *thread_to_collapsed_thread
                    .get(&event.thread_id)
                    .unwrap_or(&event.thread_id),""", """                thread_id: match thread_to_collapsed_thread.get(&event.thread_id) {
                    Some(&collapsed) if opt.collapse_threads => collapsed,
                    _ => full_event.thread_id,
                },""", "ok")
M("u-cx-thread16", "C25", CX, """                thread_id: *thread_to_collapsed_thread
                    .get(&event.thread_id)
                    .unwrap_or(&event.thread_id),""", """                thread_id: *thread_to_collapsed_thread
                    .get(&event.thread_id)
                    .unwrap_or(&(event.thread_id & 0xffff)),""", "bad")
M("u-cx-floor-ends", "C25", CX, """                duration,
                process_id""", """                duration: {
                    let micros = |t: SystemTime| t.duration_since(UNIX_EPOCH).unwrap().as_micros() as u64;
                    Duration::from_micros(micros(event.end().unwrap()) - micros(event.start().unwrap()))
                },
                process_id""", "bad")
M("u-cx-full-ok", "C25", CX, """        for event in data.iter().filter(|e| e.payload.is_interval()) {
            let duration = event.duration().unwrap();
""", """        for event in data.iter() {
            let Some(duration) = event.duration() else {
                continue;
            };
""", "ok")
M("u-cx-cat-trim", "C25", CX, "category: full_event.event_kind.clone().into_owned(),", "category: full_event.event_kind.trim().to_string(),", "bad")
M("u-cx-name-empty", "C25", CX, "name: full_event.label.clone().into_owned(),", "name: if full_event.label.is_empty() { full_event.event_kind.to_string() } else { full_event.label.to_string() },", "bad")
M("u-cx-rename", "C25", CX, """    #[serde(rename = "dur", serialize_with = "as_micros")]
    duration: Duration,""", """    #[serde(rename = "dur", serialize_with = "as_micros", skip_serializing_if = "Duration::is_zero")]
    duration: Duration,""", "bad")
M("u-cx-crate-rfind", "C25", CX, """            .find(" --crate-name ")""", """            .rfind(" --crate-name ")""", "bad")
M("u-cx-crate-ok", "C25", CX, """            let (_, last) = data.metadata().cmd.split_at(index);
            let (crate_name, _) = last.split_at(last.find(" ").unwrap_or(last.len()));
""", """            let cmd = &data.metadata().cmd;
            let crate_name = cmd[index..].split(' ').next().unwrap_or("");
""", "ok")
M("u-cx-pid-zero", "C25", CX, """                "tid" : 0,
                "cat" : "",
                "pid" : data.metadata().process_id,
                "args": {
                    "name" : crate_name""", """                "tid" : 0,
                "cat" : "",
                "pid" : 0,
                "args": {
                    "name" : crate_name""", "bad")
M("u-cx-sort-index-ms", "C25", CX, ".duration_since(UNIX_EPOCH).unwrap().as_micros() as u64\n", ".duration_since(UNIX_EPOCH).unwrap().as_millis() as u64\n", "bad")
M("u-cx-sort-index-crate", "C25", CX, """            seq.serialize_element(&process_name)?;
        }
        // sort the processes after start time
""", """            seq.serialize_element(&process_name)?;
        } else {
            continue;
        }
        // sort the processes after start time
""", "bad")
M("u-cx-dir-only", "C25", CX, "opt.file_prefix.iter().chain(dir_paths.iter())", "opt.file_prefix.iter().chain(dir_paths.iter().skip(opt.file_prefix.len()))", "bad")
M("u-cx-paths-ok", "C25 C04", CX, "    for file_prefix in opt.file_prefix.iter().chain(dir_paths.iter()) {", "    let mut paths = opt.file_prefix.clone();\n    paths.extend(dir_paths);\n    for file_prefix in &paths {", "ok")
M("u-cx-skip-unreadable", "C04", CX, "        let data = ProfilingData::new(&file_prefix)?;\n", "        let data = match ProfilingData::new(&file_prefix) {\n            Ok(data) => data,\n            Err(_) if opt.dir.is_some() => continue,\n            Err(e) => return Err(e),\n        };\n", "bad")
M("u-cx-dir-entry", "C04", CX, "            let entry = entry?;\n", "            let Ok(entry) = entry else { continue };\n", "bad")
M("u-cx-dir-collect-ok", "C04 C25", CX, """        for entry in fs::read_dir(dir_path)? {
            let entry = entry?;
            let path = entry.path();
            if path.extension().filter(|e| *e == FILE_EXTENSION).is_some() {
                result.push(path)
            }
        }
""", """        for entry in fs::read_dir(dir_path)? {
            let path = entry?.path();
            match path.extension() {
                Some(e) if e == FILE_EXTENSION => result.push(path),
                _ => {}
            }
        }
""", "ok")
# the viewer
M("u-vw-start-thread", "C26", VW, "        .filter_map(|e| e.start())\n", "        .filter(|e| opt.thread_id.map_or(true, |t| t == e.thread_id))\n        .filter_map(|e| e.start())\n", "bad")
M("u-vw-start-first", "C26", VW, "        .min()\n", "        .next()\n", "bad")
M("u-vw-start-interval", "C26", VW, "        .filter_map(|e| e.start())\n", "        .filter(|e| e.payload.is_interval())\n        .filter_map(|e| e.start())\n", "bad")
M("u-vw-start-fold-ok", "C26", VW, """        .filter_map(|e| e.start())
        .min()
        .unwrap_or(SystemTime::UNIX_EPOCH);""", """        .filter_map(|e| e.start())
        .fold(None, |min: Option<SystemTime>, t| Some(min.map_or(t, |m| m.min(t))))
        .unwrap_or(SystemTime::UNIX_EPOCH);""", "ok")
M("u-vw-thread-zero", "C26", VW, "        if let Some(thread_id) = opt.thread_id {\n", "        if let Some(thread_id) = opt.thread_id.filter(|&t| t != 0) {\n", "bad")
M("u-vw-thread-u16", "C26", VW, "            if event.thread_id != thread_id {", "            if event.thread_id as u16 != thread_id as u16 {", "bad")
M("u-vw-foreach-ok", "C26", VW, """    for event in data.iter() {
        if let Some(thread_id) = opt.thread_id {
            if event.thread_id != thread_id {
                continue;
            }
        }
        print_event(&data.to_full_event(&event), global_start_time);
    }
""", """    data.iter()
        .filter(|e| opt.thread_id.map_or(true, |t| t == e.thread_id))
        .map(|e| data.to_full_event(&e))
        .for_each(|e| print_event(&e, global_start_time));
""", "ok")
M("u-vw-full-ok", "C26", VW, """    for event in data.iter() {
        if let Some(thread_id) = opt.thread_id {
            if event.thread_id != thread_id {
                continue;
            }
        }
        print_event(&data.to_full_event(&event), global_start_time);
    }
""", """    for event in data.iter_full() {
        if opt.thread_id.is_some() && opt.thread_id != Some(event.thread_id) {
            continue;
        }
        print_event(&event, global_start_time);
    }
""", "ok")
M("u-vw-break", "C26", VW, "            if event.thread_id != thread_id {\n                continue;", "            if event.thread_id > thread_id {\n                break;\n            }\n            if event.thread_id != thread_id {\n                continue;", "bad")
M("u-vw-micros-u32", "C26", VW, "        .as_micros()\n}", "        .as_micros() as u32 as u128\n}", "bad")
M("u-vw-millis", "C26", VW, "        .as_micros()\n}", "        .as_millis()\n        * 1000\n}", "bad")
M("u-vw-sorted", "C26", VW, "    for event in data.iter() {\n        if let Some(thread_id)", "    let mut events: Vec<_> = data.iter().collect();\n    events.sort_by_key(|e| e.start());\n    for event in events {\n        if let Some(thread_id)", "bad")
M("u-vw-lock-ok", "C26", VW, [("    println!(\n", "    let mut out = std::io::stdout().lock();\n    writeln!(\n        out,\n"), ("payload, event.thread_id\n    );", "payload, event.thread_id\n    )\n    .expect(\"failed printing to stdout\");"), ("use std::error::Error;\n", "use std::error::Error;\nuse std::io::Write;\n")], None, "ok")
M("u-vw-args-dedup", "C26", VW, """    let additional_data = event.additional_data.join(",");
""", """    let mut additional_data = event.additional_data.clone();
    additional_data.dedup();
    let additional_data = additional_data.join(",");
""", "bad")
M("u-vw-end-clamped", "C26", VW, "            system_time_to_micros_since(end, global_start_time)\n", "            system_time_to_micros_since(start, global_start_time) + end.duration_since(start).unwrap_or_default().as_micros()\n", "bad")
# the editor
M("u-ed-last-event", "C27", ED, """                if !event_page_emitted {
                    truncated.extend_from_slice(page_bytes);
                    event_page_emitted = true;
                }""", """                if !event_page_emitted && page_size >= 32 {
                    truncated.extend_from_slice(page_bytes);
                    event_page_emitted = true;
                }""", "bad")
M("u-ed-index-once", "C27", ED, """            PageTag::StringData | PageTag::StringIndex => {
                // Copy all string table pages
                truncated.extend_from_slice(page_bytes);
            }""", """            PageTag::StringData | PageTag::StringIndex => {
                // Copy all string table pages
                truncated.extend(page_bytes.iter().copied().take(4096));
            }""", "bad")
M("u-ed-rest-ok", "C27", ED, [("""    let mut pos = 0;
    while pos < paged_data.len() {
        let page_start = pos;

        let tag = TryInto::try_into(paged_data[pos]).unwrap();
        let page_size =
            u32::from_le_bytes(paged_data[pos + 1..pos + 5].try_into().unwrap()) as usize;

        assert!(page_size > 0);

        let page_end = page_start + 5 + page_size;
        let page_bytes = &paged_data[page_start..page_end];
""", """    let mut rest = paged_data;
    while !rest.is_empty() {
        let tag = TryInto::try_into(rest[0]).unwrap();
        let page_size = u32::from_le_bytes(rest[1..5].try_into().unwrap()) as usize;

        assert!(page_size > 0);

        let (page_bytes, tail) = rest.split_at(5 + page_size);
        rest = tail;
"""), ("\n        pos = page_end;\n", "\n")], None, "ok")
M("u-ed-keep-ok", "C27", ED, """        match tag {
            PageTag::Events => {
                // Copy only the first event page
                if !event_page_emitted {
                    truncated.extend_from_slice(page_bytes);
                    event_page_emitted = true;
                }
            }
            PageTag::StringData | PageTag::StringIndex => {
                // Copy all string table pages
                truncated.extend_from_slice(page_bytes);
            }
        }
""", """        let keep = match tag {
            PageTag::Events => !std::mem::replace(&mut event_page_emitted, true),
            PageTag::StringData | PageTag::StringIndex => true,
        };
        if keep {
            truncated.extend_from_slice(page_bytes);
        }
""", "ok")
M("u-ed-only-current", "C27", ED, "file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION", "file_version != CURRENT_FILE_FORMAT_VERSION", "bad")
M("u-ed-not-current", "C27", ED, "file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION", "!(7..CURRENT_FILE_FORMAT_VERSION).contains(&file_version)", "bad")
M("u-ed-range-ok", "C27", ED, "file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION", "!(7..=CURRENT_FILE_FORMAT_VERSION).contains(&file_version)", "ok")
M("u-ed-in-place", "C27", ED, """opt.file.with_extension("truncated.mm_profdata")""", """opt.file.with_extension("mm_profdata")""", "bad")
M("u-ed-no-change", "C27", ED, """            std::fs::write(output_file_name, truncated)?;""", """            if truncated.len() < file_contents.len() {
                std::fs::write(output_file_name, truncated)?;
            } else {
                std::fs::rename(&opt.file, output_file_name)?;
            }""", "bad")
M("u-ed-merge-pages", "C27", ED, """            PageTag::StringData | PageTag::StringIndex => {
                // Copy all string table pages
                truncated.extend_from_slice(page_bytes);
            }""", """            PageTag::StringData | PageTag::StringIndex => {
                // Copy all string table pages
                truncated.extend_from_slice(&page_bytes[..5]);
                truncated.extend(page_bytes[5..].iter().rev());
            }""", "bad")
M("u-ed-version-stamp", "C27", ED, "    let mut truncated = file_contents[..FILE_HEADER_SIZE].to_vec();\n", "    let mut truncated = file_contents[..4].to_vec();\n    truncated.extend_from_slice(&CURRENT_FILE_FORMAT_VERSION.to_le_bytes());\n", "bad")
# stacks written out
M("u-st-nonzero", "C20", ST, "    for (unique_stack, count) in recorded_stacks {\n", "    for (unique_stack, count) in recorded_stacks.into_iter().filter(|(_, count)| *count >= 1_000) {\n", "bad")
M("u-st-swap", "C20", ST, """        writeln!(file, "{} {}", unique_stack, count)?;""", """        writeln!(file, "{} {}", unique_stack, count / 1_000 * 1_000)?;""", "bad")
M("u-st-sorted-ok", "C20 C04", ST, "    for (unique_stack, count) in recorded_stacks {\n", "    let mut recorded_stacks: Vec<_> = recorded_stacks.into_iter().collect();\n    recorded_stacks.sort();\n    for (unique_stack, count) in recorded_stacks {\n", "ok")
M("u-fg-nonzero", "C20", FG, """        .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
""", """        .filter(|(_, count)| **count >= 1_000)
        .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
""", "bad")
# the summary
M("u-su-sort-time", "C24", SU, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by(|l, r| r.self_time.as_micros().cmp(&l.self_time.as_micros()));", "bad")
M("u-su-sort-ok", "C24", SU, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by_key(|q| std::cmp::Reverse(q.self_time));", "ok")
M("u-su-rev-ok", "C24", SU, "        .sort_by(|l, r| r.self_time.cmp(&l.self_time));", "        .sort_by_key(|q| q.self_time);\n    results.query_data.reverse();", "ok")
M("u-su-unsorted-cut", "C24", SU, "            break;\n        } //no need", "            continue;\n        } //no need", "ok")
M("u-su-trunc-share", "C24", SU, "    let percent_above = opt.percent_above;\n", "    let percent_above = opt.percent_above.ceil();\n", "bad")
M("u-su-share-shown", "C24", SU, "        if curr_percent < percent_above {", "        if (curr_percent * 10.0).round() / 10.0 < percent_above {", "bad")
M("u-su-share-total", "C24", SU, "    let total_time = results.total_time.as_nanos() as f64;", "    let total_time = results.query_data.iter().map(|q| q.self_time).sum::<Duration>().as_nanos() as f64;", "bad")
M("u-su-break-early", "C24", SU, """        if has_cache_hits
            && has_blocked_time
            && has_incremental_load_time
            && has_incremental_hashing_time
        {""", """        if has_cache_hits
            && has_blocked_time
            && has_incremental_load_time
        {""", "bad")
M("u-su-any-ok", "C24", SU, """    let mut has_cache_hits = false;
    let mut has_blocked_time = false;
    let mut has_incremental_load_time = false;
    let mut has_incremental_hashing_time = false;

    let duration_zero = Duration::from_secs(0);
    for r in &results.query_data {
        if r.number_of_cache_hits > 0 {
            has_cache_hits = true;
        }
        if r.blocked_time > duration_zero {
            has_blocked_time = true;
        }
        if r.incremental_load_time > duration_zero {
            has_incremental_load_time = true;
        }

        if r.incremental_hashing_time > duration_zero {
            has_incremental_hashing_time = true;
        }

        if has_cache_hits
            && has_blocked_time
            && has_incremental_load_time
            && has_incremental_hashing_time
        {
            break;
        }
    }
""", """    let any = |f: fn(&analyzeme::QueryData) -> bool| results.query_data.iter().any(f);
    let has_cache_hits = any(|r| r.number_of_cache_hits != 0);
    let has_blocked_time = any(|r| r.blocked_time != Duration::ZERO);
    let has_incremental_load_time = any(|r| !r.incremental_load_time.is_zero());
    let has_incremental_hashing_time = any(|r| r.incremental_hashing_time.as_nanos() > 0);
""", "ok")
M("u-su-load-micros", "C24", SU, "        if r.incremental_load_time > duration_zero {", "        if r.incremental_load_time.as_micros() > 0 {", "bad")
M("u-su-swap-cells", "C24", SU, """                &format!("{:.2?}", query_data.incremental_load_time),
                has_incremental_load_time,""", """                &format!("{:.2?}", query_data.incremental_load_time),
                has_incremental_hashing_time,""", "bad")
M("u-su-json-retain", "C24", SU, """    //just output the results into a json file
    if opt.json {
""", """    results.query_data.retain(|q| q.invocation_count > 0);

    //just output the results into a json file
    if opt.json {
""", "bad")
M("u-su-json-sorted-ok", "C24", SU, """    //just output the results into a json file
    if opt.json {
""", """    results.query_data.sort_by(|l, r| r.self_time.cmp(&l.self_time));

    //just output the results into a json file
    if opt.json {
""", "ok")
M("u-su-json-cut", "C24", SU, """    //just output the results into a json file
    if opt.json {
""", """    //just output the results into a json file
    if opt.json {
        results.artifact_sizes.retain(|a| a.value > 0);
""", "bad")
M("u-su-json-ext", "C24", SU, """File::create(file.with_extension("json"))?""", """File::create(file.with_extension("results"))?""", "bad")
M("u-su-count-hits", "C24", SU, """(&format!("{}", query_data.invocation_count), true),""", """(&format!("{}", query_data.number_of_cache_misses + query_data.number_of_cache_hits), true),""", "bad")
M("u-su-count-u32", "C24", SU, """(&format!("{}", query_data.invocation_count), true),""", """(&format!("{}", query_data.invocation_count as u32), true),""", "bad")
M("u-su-let-ok", "C24", SU, """    for query_data in results.query_data {
        let curr_percent = (query_data.self_time.as_nanos() as f64) / total_time * 100.0;
        if curr_percent < percent_above {
            break;
        } //no need to run entire loop if filtering by % time
""", """    let share = |d: &Duration| d.as_nanos() as f64 / total_time * 100.0;
    for query_data in results
        .query_data
        .iter()
        .take_while(|q| !(share(&q.self_time) < percent_above))
    {
        let curr_percent = share(&query_data.self_time);
""", "ok")
# the difference
M("u-di-exclude-case", "C22", SU, "        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));", "        let exclude = opt.exclude.iter().any(|e| query_data.label.to_lowercase().contains(&e.to_lowercase()));", "bad")
M("u-di-exclude-all", "C22", SU, "        let exclude = opt.exclude.iter().any(|e| artifact_size.label.contains(e));", "        let exclude = !opt.exclude.is_empty() && opt.exclude.iter().all(|e| artifact_size.label.contains(e));", "bad")
M("u-di-exclude-empty", "C22", SU, "        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));", "        let exclude = opt.exclude.iter().filter(|e| e.len() > 1).any(|e| query_data.label.contains(e));", "bad")
M("u-di-helper-ok", "C22", SU, [("""    for query_data in results.query_data {
        let exclude = opt.exclude.iter().any(|e| query_data.label.contains(e));
        if exclude {
            continue;
        }
""", """    let shown = |label: &str| !opt.exclude.iter().any(|e| label.contains(e.as_str()));
    for query_data in results.query_data.into_iter().filter(|q| shown(&q.label)) {
"""), ("""    for artifact_size in results.artifact_sizes {
        let exclude = opt.exclude.iter().any(|e| artifact_size.label.contains(e));
        if exclude {
            continue;
        }
""", """    for artifact_size in results.artifact_sizes {
        if !shown(&artifact_size.label) {
            continue;
        }
""")], None, "ok")
M("u-di-sizes-abs", "C22", DI, "    artifact_sizes.sort_by(|l, r| r.size_change.cmp(&l.size_change));", "    artifact_sizes.sort_by(|l, r| r.size_change.abs().cmp(&l.size_change.abs()));", "bad")
M("u-di-sizes-ok", "C22", DI, "    artifact_sizes.sort_by(|l, r| r.size_change.cmp(&l.size_change));", "    artifact_sizes.sort_unstable_by_key(|a| std::cmp::Reverse(a.size_change));", "ok")
M("u-di-time-base", "C22", DI, "            time_change: percentage_change(rhs.time, lhs.time),", "            time_change: percentage_change(rhs.self_time.max(rhs.time), lhs.time),", "bad")
M("u-di-percent-u64", "C22", DI, "            let nanos = change.as_nanos() as i128 - base.as_nanos() as i128;\n", "            let nanos = (change.as_nanos() as u64).saturating_sub(base.as_nanos() as u64);\n", "bad")
M("u-di-percent-ok", "C22", DI, "            nanos as f64 / base.as_nanos() as f64 * 100.0\n", "            100.0 * (nanos as f64 / base.as_nanos() as f64)\n", "ok")
M("u-di-nanos-i64", "C22", DI, "            duration: Duration::from_nanos(nanos.abs() as u64),", "            duration: Duration::from_micros((nanos.abs() / 1000) as u64),", "bad")
M("u-di-sign", "C22", DI, "        let is_positive = nanos >= 0;\n", "        let is_positive = nanos > -1000;\n", "bad")
M("u-di-unsigned-ok", "C22", DI, "            duration: Duration::from_nanos(nanos.abs() as u64),", "            duration: Duration::from_nanos(nanos.unsigned_abs() as u64),", "ok")
M("u-di-count32", "C22", DI, "            u as i64\n", "            u as u32 as i64\n", "bad")
M("u-di-total", "C22", DI, "        total_time: sd(change.total_time) - sd(base.total_time),", "        total_time: SignedDuration { duration: change.total_time.max(base.total_time) - change.total_time.min(base.total_time), is_positive: true },", "bad")
M("u-di-lookup-ok", "C22", DI, """    let mut lookup = FxHashMap::with_capacity_and_hasher(query_data.len(), Default::default());
    for (i, data) in query_data.iter().enumerate() {
        lookup.insert(&data.label[..], i);
    }

    lookup""", """    query_data
        .iter()
        .enumerate()
        .map(|(i, data)| (data.label.as_str(), i))
        .collect()""", "ok")
M("u-di-zero-entries", "C22", DI, "    query_data.sort_by(|l, r| r.self_time.duration.cmp(&l.self_time.duration));\n", "    query_data.retain(|q| q.self_time.duration != Duration::ZERO || q.time.duration != Duration::ZERO);\n    query_data.sort_by(|l, r| r.self_time.duration.cmp(&l.self_time.duration));\n", "bad")
M("u-di-removed-size", "C22", DI, "            size_change: -(size.value as i64),", "            size_change: -(size.value as i32 as i64),", "bad")
M("u-cx-span-shown", "C25", CX, """            .filter_map(|e| e.timestamp().map(|t| (e.thread_id, t)))
""", """            .filter(|e| match (opt.minimum_duration, e.duration()) {
                (Some(minimum), Some(duration)) => duration.as_micros() >= minimum,
                _ => true,
            })
            .filter_map(|e| e.timestamp().map(|t| (e.thread_id, t)))
""", "bad")
