# A third set: accounting, stacks, loading.
AN = "analyzeme/src/analysis.rs"; SC = "analyzeme/src/stack_collapse.rs"; PD = "analyzeme/src/profiling_data.rs"; V8 = "analyzeme/src/file_formats/v8.rs"
M("t-an-entry-ok", "C19", AN, """            if let Some(data) = query_data.get_mut(&label[..]) {
                f(data);
            } else {
                let mut data = QueryData::new(label.clone().into_owned());
                f(&mut data);
                query_data.insert(label.clone().into_owned(), data);
            }""", """            let data = query_data
                .entry(label.to_string())
                .or_insert_with_key(|label| QueryData::new(label.clone()));
            f(data);""", "ok")
M("t-an-contains-ok", "C19", AN, """            if let Some(data) = query_data.get_mut(&label[..]) {
                f(data);
            } else {
                let mut data = QueryData::new(label.clone().into_owned());
                f(&mut data);
                query_data.insert(label.clone().into_owned(), data);
            }""", """            let key = label.as_ref();
            if !query_data.contains_key(key) {
                query_data.insert(key.to_owned(), QueryData::new(key.to_owned()));
            }
            f(query_data.get_mut(key).unwrap());""", "ok")
M("t-an-event-loop-ok", "C19", AN, "        for current_event in self.iter_full().rev() {", """        let mut events = self.iter_full();
        while let Some(current_event) = events.next_back() {""", "ok")
M("t-an-light-loop-ok", "C19", AN, "        for current_event in self.iter_full().rev() {", """        for current_event in self.iter().rev() {
            let current_event = self.to_full_event(&current_event);""", "ok")
M("t-an-index-loop-ok", "C19", AN, "        for current_event in self.iter_full().rev() {", """        for index in (0..self.num_events()).rev() {
            let current_event = self.decode_full_event(index);""", "ok")
M("t-an-vec-loop-ok", "C19", AN, "        for current_event in self.iter_full().rev() {", """        let events: Vec<_> = self.iter_full().collect();
        for current_event in events.into_iter().rev() {""", "ok")
M("t-an-pop-fn-ok", "C19", AN, [("""                    while let Some(current_top) = thread.stack.last().cloned() {
                        if current_top.contains(&current_event) {
                            break;
                        }

                        thread.stack.pop();
                    }
""", """                    pop_finished(&mut thread.stack, &current_event);
"""), ("""/// A collection data for an entire rustc invocation""", """/// Pops all events from the stack that do not contain `event`.
fn pop_finished(stack: &mut Vec<Event<'_>>, event: &Event<'_>) {
    while stack.last().map_or(false, |top| !top.contains(event)) {
        stack.pop();
    }
}

/// A collection data for an entire rustc invocation""")], None, "ok")
M("t-an-trunc-ok", "C19", AN, """                    while let Some(current_top) = thread.stack.last().cloned() {
                        if current_top.contains(&current_event) {
                            break;
                        }

                        thread.stack.pop();
                    }
""", """                    let mut depth = thread.stack.len();
                    while depth > 0 && !thread.stack[depth - 1].contains(&current_event) {
                        depth -= 1;
                    }
                    thread.stack.truncate(depth);
""", "ok")
M("t-an-popif", "C19", AN, """                    while let Some(current_top) = thread.stack.last().cloned() {
                        if current_top.contains(&current_event) {
                            break;
                        }

                        thread.stack.pop();
                    }
""", """                    if let Some(current_top) = thread.stack.last().cloned() {
                        if !current_top.contains(&current_event) {
                            thread.stack.pop();
                        }
                    }
""", "bad")
M("t-an-retain", "C19", AN, """                    while let Some(current_top) = thread.stack.last().cloned() {
                        if current_top.contains(&current_event) {
                            break;
                        }

                        thread.stack.pop();
                    }
""", """                    while let Some(current_top) = thread.stack.last() {
                        if current_top.contains(&current_event) || current_top.payload.contains(&current_event.payload) || current_top.label == current_event.label {
                            break;
                        }

                        thread.stack.pop();
                    }
""", "bad")
M("t-an-child-fn-ok", "C19", AN, [("""                    if let Some(current_top) = thread.stack.last() {
                        record_event_data(
                            &current_top.label,
                            &|data| match &current_top.event_kind[..] {
                                QUERY_EVENT_KIND | GENERIC_ACTIVITY_EVENT_KIND => {
                                    data.self_time -= current_event_duration;
                                }
                                INCREMENTAL_RESULT_HASHING_EVENT_KIND => {
                                    // We are within hashing something. If we now encounter something
                                    // within that event (like the nested "intern-the-dep-node" event)
                                    // then we don't want to attribute that to the hashing time.
                                    data.self_time -= current_event_duration;
                                    data.incremental_hashing_time -= current_event_duration;
                                }
                                INCREMENTAL_LOAD_RESULT_EVENT_KIND => {
                                    data.self_time -= current_event_duration;
                                    data.incremental_load_time -= current_event_duration;
                                }
                                _ => {
                                    // Data sources other than rustc will use their own event kinds so
                                    // just treat this like a GENERIC_ACTIVITY except that we don't
                                    // track cache misses since those may not apply to all data sources.
                                    data.self_time -= current_event_duration;
                                }
                            },
                        );
                    }
""", """                    if let Some(parent) = thread.stack.last() {
                        record_event_data(&parent.label, &|data| {
                            data.subtract_child(&parent.event_kind, current_event_duration)
                        });
                    }
"""), ("""impl QueryData {
    pub fn new(""", """impl QueryData {
    fn subtract_child(&mut self, parent_kind: &str, duration: Duration) {
        self.self_time -= duration;
        if parent_kind == INCREMENTAL_RESULT_HASHING_EVENT_KIND {
            self.incremental_hashing_time -= duration;
        } else if parent_kind == INCREMENTAL_LOAD_RESULT_EVENT_KIND {
            self.incremental_load_time -= duration;
        }
    }

    pub fn new(""")], None, "ok")
M("t-an-count-fn-ok", "C19", AN, [("""                    // Update counters for the current event
                    match &current_event.event_kind[..] {
                        QUERY_EVENT_KIND | GENERIC_ACTIVITY_EVENT_KIND => {
                            record_event_data(&current_event.label, &|data| {
                                data.self_time += current_event_duration;
                                data.time += current_event_duration;
                                data.number_of_cache_misses += 1;
                                data.invocation_count += 1;
                            });
                        }

                        QUERY_BLOCKED_EVENT_KIND => {
                            record_event_data(&current_event.label, &|data| {
                                data.self_time += current_event_duration;
                                data.time += current_event_duration;
                                data.blocked_time += current_event_duration;
                                data.invocation_count += 1;
                            });
                        }

                        INCREMENTAL_LOAD_RESULT_EVENT_KIND => {
                            record_event_data(&current_event.label, &|data| {
                                data.self_time += current_event_duration;
                                data.time += current_event_duration;
                                data.incremental_load_time += current_event_duration;
                            });
                        }

                        INCREMENTAL_RESULT_HASHING_EVENT_KIND => {
                            record_event_data(&current_event.label, &|data| {
                                // Don't add to data.time since this event happens
                                // within the query itself which is already contributing
                                // to data.time
                                data.self_time += current_event_duration;
                                data.incremental_hashing_time += current_event_duration;
                            });
                        }

                        _ => {
                            // Data sources other than rustc will use their own event kinds so just
                            // treat this like a GENERIC_ACTIVITY except that we don't track cache
                            // misses since those may not apply to all data sources.
                            record_event_data(&current_event.label, &|data| {
                                data.self_time += current_event_duration;
                                data.time += current_event_duration;
                                data.invocation_count += 1;
                            });
                        }
                    };
""", """                    // Update counters for the current event
                    let kind = &current_event.event_kind[..];
                    record_event_data(&current_event.label, &|data| {
                        data.self_time += current_event_duration;
                        if kind != INCREMENTAL_RESULT_HASHING_EVENT_KIND {
                            data.time += current_event_duration;
                        } else {
                            data.incremental_hashing_time += current_event_duration;
                        }
                        match kind {
                            QUERY_EVENT_KIND | GENERIC_ACTIVITY_EVENT_KIND => data.number_of_cache_misses += 1,
                            QUERY_BLOCKED_EVENT_KIND => data.blocked_time += current_event_duration,
                            INCREMENTAL_LOAD_RESULT_EVENT_KIND => {
                                data.incremental_load_time += current_event_duration
                            }
                            _ => {}
                        }
                        let counted = !matches!(
                            kind,
                            INCREMENTAL_LOAD_RESULT_EVENT_KIND | INCREMENTAL_RESULT_HASHING_EVENT_KIND
                        );
                        data.invocation_count += usize::from(counted);
                    });
""")], None, "ok")
M("t-an-order-ok", "C19", AN, [("""                    // Update the start and end times for thread
                    thread.start = std::cmp::min(thread.start, start);
                    thread.end = std::cmp::max(thread.end, end);

""", ""), ("""                    let current_event_duration = current_event.duration().unwrap();
""", """                    if start < thread.start {
                        thread.start = start;
                    }
                    if end > thread.end {
                        thread.end = end;
                    }

                    let current_event_duration = end.duration_since(start).unwrap();
""")], None, "ok")
M("t-an-total-ok", "C19", AN, """        let total_time = threads
            .values()
            .map(|t| t.end.duration_since(t.start).unwrap())
            .sum();
""", """        let mut total_time = Duration::ZERO;
        for (_, thread) in &threads {
            total_time += thread.end.duration_since(thread.start).unwrap();
        }
""", "ok")
M("t-an-total-span", "C19", AN, """        let total_time = threads
            .values()
            .map(|t| t.end.duration_since(t.start).unwrap())
            .sum();
""", """        let first = threads.values().map(|t| t.start).min();
        let last = threads.values().map(|t| t.end).max();
        let total_time = match (first, last) {
            (Some(first), Some(last)) => last.duration_since(first).unwrap(),
            _ => Duration::default(),
        };
""", "bad")
M("t-an-total-longest", "C19", AN, """            .map(|t| t.end.duration_since(t.start).unwrap())
            .sum();
""", """            .map(|t| t.end.duration_since(t.start).unwrap())
            .max()
            .unwrap_or_default();
""", "bad")
M("t-an-art-ok", "C19", AN, """                        artifact_sizes
                            .entry(current_event.label.clone())
                            .or_insert_with(|| ArtifactSize::new(current_event.label.into_owned()))
                            .add_value(value);""", """                        let label = current_event.label;
                        match artifact_sizes.get_mut(&label) {
                            Some(artifact) => artifact.add_value(value),
                            None => {
                                let mut artifact = ArtifactSize::new(label.to_string());
                                artifact.add_value(value);
                                artifact_sizes.insert(label, artifact);
                            }
                        }""", "ok")
M("t-an-art-last", "C19", AN, """                            .or_insert_with(|| ArtifactSize::new(current_event.label.into_owned()))
                            .add_value(value);""", """                            .or_insert_with(|| ArtifactSize::new(current_event.label.into_owned()))
                            .value = value;""", "bad")
M("t-an-art-kind", "C19", AN, """                    if current_event.event_kind == ARTIFACT_SIZE_EVENT_KIND {""", """                    if current_event.event_kind.ends_with(ARTIFACT_SIZE_EVENT_KIND) {""", "bad")
M("t-an-drain-ok", "C19", AN, """            query_data: query_data.drain().map(|(_, value)| value).collect(),
            artifact_sizes: artifact_sizes.into_values().collect(),""", """            query_data: query_data.into_values().collect(),
            artifact_sizes: artifact_sizes.into_iter().map(|(_, size)| size).collect(),""", "ok")
M("t-an-skip-empty", "C19", AN, """            query_data: query_data.drain().map(|(_, value)| value).collect(),""", """            query_data: query_data
                .drain()
                .map(|(_, value)| value)
                .filter(|data| data.invocation_count > 0)
                .collect(),""", "bad")
M("t-an-continue-ok", "C19", AN, """                    if &current_event.event_kind[..] == QUERY_CACHE_HIT_EVENT_KIND {
                        record""", """                    if current_event.event_kind != QUERY_CACHE_HIT_EVENT_KIND {
                        continue;
                    }
                    {
                        record""", "ok")
M("t-an-sat", "C19", AN, """                                _ => {
                                    // Data sources other than rustc will use their own event kinds so
                                    // just treat this like a GENERIC_ACTIVITY except that we don't
                                    // track cache misses since those may not apply to all data sources.
                                    data.self_time -= current_event_duration;
                                }""", """                                _ => {
                                    data.self_time = data.self_time.saturating_sub(current_event_duration);
                                }""", "ok")
# ---- stacks
M("t-sc-helper-ok", "C20", SC, [("""        // Add this event to the stack_id
        thread.stack_id.push(';');
        thread
            .stack_id
            .push_str(&profiling_data.to_full_event(&current_event).label[..]);
""", """        // Add this event to the stack_id
        let label = profiling_data.to_full_event(&current_event).label;
        thread.stack_id += ";";
        thread.stack_id += &label;
"""), ("""            let popped = thread.stack.pop().unwrap();
            let popped = profiling_data.to_full_event(&popped);
            let new_stack_id_len = thread.stack_id.len() - (popped.label.len() + 1);
            thread.stack_id.truncate(new_stack_id_len);
""", """            thread.stack.pop();
            let label_len = profiling_data.to_full_event(&current_top).label.len();
            let new_stack_id_len = thread.stack_id.len() - label_len - 1;
            thread.stack_id.truncate(new_stack_id_len);
""")], None, "ok")
M("t-sc-getmut-ok", "C20", SC, """            counters
                .entry(thread.stack_id.clone())
                .and_modify(|self_time| {
                    *self_time -= current_event.duration().unwrap().as_nanos() as u64;
                });
""", """            if let Some(self_time) = counters.get_mut(&thread.stack_id) {
                *self_time -= current_event.duration().unwrap().as_nanos() as u64;
            }
""", "ok")
M("t-sc-index-ok", "C20", SC, """            counters
                .entry(thread.stack_id.clone())
                .and_modify(|self_time| {
                    *self_time -= current_event.duration().unwrap().as_nanos() as u64;
                });
""", """            *counters.get_mut(thread.stack_id.as_str()).unwrap() -=
                end.duration_since(start).unwrap().as_nanos() as u64;
""", "ok")
M("t-sc-format-ok", "C20", SC, """        thread.stack_id.push(';');
        thread
            .stack_id
            .push_str(&profiling_data.to_full_event(&current_event).label[..]);
""", """        let label = profiling_data.to_full_event(&current_event).label;
        thread.stack_id = format!("{};{}", thread.stack_id, label);
""", "ok")
M("t-sc-insert-ok", "C20", SC, """        let self_time = counters.entry(thread.stack_id.clone()).or_default();
        *self_time += current_event.duration().unwrap().as_nanos() as u64;
""", """        let duration = current_event.duration().unwrap().as_nanos() as u64;
        counters
            .entry(thread.stack_id.clone())
            .and_modify(|self_time| *self_time += duration)
            .or_insert(duration);
""", "ok")
M("t-sc-insert-over", "C20", SC, """        let self_time = counters.entry(thread.stack_id.clone()).or_default();
        *self_time += current_event.duration().unwrap().as_nanos() as u64;
""", """        let duration = current_event.duration().unwrap().as_nanos() as u64;
        counters.insert(thread.stack_id.clone(), duration);
""", "bad")
M("t-sc-gap-ok", "C20", SC, """    let mut rustc_time = 0;
    for thread in threads.values() {
        // For each thread we take the time between the start of the first and
        // the end of the last event, and subtract the duration of all top-level
        // events of that thread. That leaves us with the duration of all gaps
        // on the threads timeline.
        rustc_time += thread.end.duration_since(thread.start).unwrap().as_nanos() as u64
            - thread.total_event_time_nanos;
    }
    counters.insert("rustc".to_owned(), rustc_time);
""", """    let gaps: u64 = threads
        .values()
        .map(|thread| {
            let span = thread.end.duration_since(thread.start).unwrap();
            span.as_nanos() as u64 - thread.total_event_time_nanos
        })
        .sum();
    counters.insert(String::from("rustc"), gaps);
""", "ok")
M("t-sc-filter-ok", "C20", SC, """    for current_event in profiling_data
        .iter()
        .rev()
        .filter(|e| e.payload.is_interval())
    {
        let start = current_event.start().unwrap();
        let end = current_event.end().unwrap();
""", """    for current_event in profiling_data.iter().rev() {
        let (start, end) = match current_event.timestamp() {
            Some(crate::Timestamp::Interval { start, end }) => (start, end),
            _ => continue,
        };
""", "ok")
M("t-sc-entry-ok", "C20", SC, """            .or_insert(PerThreadState {
                stack: Vec::new(),
                stack_id: "rustc".to_owned(),
                start,
                end,
                total_event_time_nanos: 0,
            });
""", """            .or_insert_with(|| PerThreadState {
                stack: Vec::with_capacity(16),
                stack_id: String::from("rustc"),
                start,
                end,
                total_event_time_nanos: 0,
            });
""", "ok")
M("t-sc-rustc-skip", "C20", SC, """    counters.insert("rustc".to_owned(), rustc_time);
""", """    if rustc_time > 0 {
        counters.insert("rustc".to_owned(), rustc_time);
    }
""", "bad")
M("t-sc-gap-top", "C20", SC, """        if !thread.stack.is_empty() {""", """        if !thread.stack.is_empty() && thread.stack_id != "rustc" {""", "bad")
M("t-sc-start-drop", "C20", SC, """        thread.start = cmp::min(thread.start, start);
""", """        if thread.stack.is_empty() {
            thread.start = cmp::min(thread.start, start);
        }
""", "bad")
M("t-sc-end-upd", "C20", SC, """        thread.start = cmp::min(thread.start, start);
""", """        thread.start = cmp::min(thread.start, start);
        thread.end = cmp::max(thread.end, end);
""", "ok")
M("t-sc-mid-ok", "C20", SC, """        thread.start = cmp::min(thread.start, start);

        // Pop""", """        if start < thread.start {
            thread.start = start;
        }

        // Pop""", "ok")
# ---- profiling data
M("t-pd-version-ok", "C16 C15", PD, """        let event_decoder: Box<dyn file_formats::EventDecoder> = match file_format_version {
            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::EventDecoder::new(
                data,
                diagnostic_file_path,
            )?),
            file_formats::v9::FILE_FORMAT => Box::new(file_formats::v9::EventDecoder::new(
                data,
                diagnostic_file_path,
            )?),
            unsupported_version => {""", """        let event_decoder: Box<dyn file_formats::EventDecoder> = match file_format_version {
            file_formats::v8::FILE_FORMAT => {
                let decoder = file_formats::v8::EventDecoder::new(data, diagnostic_file_path)?;
                Box::new(decoder)
            }
            version if version == file_formats::current::FILE_FORMAT => {
                Box::new(file_formats::current::EventDecoder::new(data, diagnostic_file_path)?)
            }
            unsupported_version => {""", "ok")
M("t-pd-version-if-ok", "C16 C15", PD, """                let msg = if unsupported_version > file_formats::current::FILE_FORMAT {
                    format!(""", """                let too_new = unsupported_version >= file_formats::current::FILE_FORMAT;
                let msg = if too_new {
                    format!(""", "ok")
M("t-pd-version-newer", "C16 C15", PD, """            file_formats::v9::FILE_FORMAT => Box::new(""", """            file_formats::v9::FILE_FORMAT | 10 => Box::new(""", "bad")
M("t-pd-new-ok", "C16", PD, """        if paged_path.exists() {
            let data = fs::read(&paged_path)?;
            ProfilingData::from_paged_buffer(data, Some(&paged_path))
        } else {""", """        if paged_path.exists() {
            return fs::read(&paged_path)
                .map_err(|e| e.into())
                .and_then(|data| ProfilingData::from_paged_buffer(data, Some(paged_path.as_path())));
        }
        {""", "ok")
M("t-pd-iter-ok", "C17 C16", PD, """        if self.forward_event_idx == self.backward_event_idx {
            return None;
        }

        let event = Some(self.data.decode_lightweight_event(self.forward_event_idx));

        // Advance the index *after* reading the event
        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();

        event""", """        if self.forward_event_idx < self.backward_event_idx {
            let index = self.forward_event_idx;
            self.forward_event_idx += 1;
            Some(self.data.decode_lightweight_event(index))
        } else {
            None
        }""", "ok")
M("t-pd-iter-then-ok", "C17 C16", PD, """        if self.forward_event_idx == self.backward_event_idx {
            return None;
        }

        // Advance the index *before* reading the event
        self.backward_event_idx = self.backward_event_idx.checked_sub(1).unwrap();

        Some(self.data.decode_lightweight_event(self.backward_event_idx))""", """        (self.forward_event_idx != self.backward_event_idx).then(|| {
            self.backward_event_idx -= 1;
            self.data.decode_lightweight_event(self.backward_event_idx)
        })""", "ok")
M("t-pd-iter-range-ok", "C17 C16", PD, [("""    forward_event_idx: usize,
    backward_event_idx: usize,
}""", """    indices: std::ops::Range<usize>,
}"""), ("""            forward_event_idx: 0,
            backward_event_idx: data.num_events(),
""", """            indices: 0..data.num_events(),
"""), ("""        if self.forward_event_idx == self.backward_event_idx {
            return None;
        }

        let event = Some(self.data.decode_lightweight_event(self.forward_event_idx));

        // Advance the index *after* reading the event
        self.forward_event_idx = self.forward_event_idx.checked_add(1).unwrap();

        event""", """        self.indices.next().map(|index| self.data.decode_lightweight_event(index))"""), ("""        let items_left = self
            .backward_event_idx
            .checked_sub(self.forward_event_idx)
            .unwrap();
        (items_left, Some(items_left))""", """        self.indices.size_hint()"""), ("""        if self.forward_event_idx == self.backward_event_idx {
            return None;
        }

        // Advance the index *before* reading the event
        self.backward_event_idx = self.backward_event_idx.checked_sub(1).unwrap();

        Some(self.data.decode_lightweight_event(self.backward_event_idx))""", """        let index = self.indices.next_back()?;
        Some(self.data.decode_lightweight_event(index))""")], None, "ok")
M("t-pd-hint-stale", "C17", PD, """        let items_left = self
            .backward_event_idx
            .checked_sub(self.forward_event_idx)
            .unwrap();
        (items_left, Some(items_left))""", """        let items_left = self.data.num_events() - self.forward_event_idx;
        (items_left, Some(items_left))""", "bad")
M("t-pd-full-ok", "C17 C16", PD, """        self.iter().map(move |e| self.to_full_event(&e))""", """        self.iter().map(move |e| self.decode_full_event(e.event_index))""", "ok")
M("t-pd-meta-ok", "C16 C18", PD, """        self.metadata.get_or_init(|| self.event_decoder.metadata())""", """        let decoder = &self.event_decoder;
        self.metadata.get_or_init(move || decoder.metadata())""", "ok")
M("t-pd-build-ok", "C08 C14 C18", PD, """        let event_kind = self.string_table.alloc(event_kind);
        let event_id = EventId::from_label(self.string_table.alloc(event_id));

        inner(self);

        let raw_event =
            RawEvent::new_interval(event_kind, event_id, thread_id, start_nanos, end_nanos);

        self.write_raw_event(&raw_event);

        self""", """        inner(self);

        let event_id = EventId::from_label(self.string_table.alloc(event_id));
        let event_kind = self.string_table.alloc(event_kind);

        self.write_raw_event(&RawEvent::new_interval(
            event_kind,
            event_id,
            thread_id,
            start_nanos,
            end_nanos,
        ));
        self""", "ok")
# ---- v8
M("t-v8-closure-ok", "C16", V8, """        let old = self.metadata();
        v8_metadata_as_current(&old)""", """        let OldMetadata { start_time, process_id, cmd, .. } = self.metadata();
        Metadata { start_time, process_id, cmd }""", "ok")
M("t-v8-payload-ok", "C16", V8, """    match old {
        OldEventPayload::Timestamp(t) => EventPayload::Timestamp(v8_timestamp_as_current(t)),
        OldEventPayload::Integer(t) => EventPayload::Integer(t),
    }""", """    if let OldEventPayload::Integer(value) = old {
        return EventPayload::Integer(value);
    }
    let t = old.timestamp().expect("a timestamp");
    EventPayload::Timestamp(if t.is_instant() {
        Timestamp::Instant(t.start())
    } else {
        Timestamp::Interval { start: t.start(), end: t.end() }
    })""", "ok")
M("t-v8-instant-zero", "C16", V8, """        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },""", """        OldTimestamp::Interval { start, end } if start == end => Timestamp::Instant(start),
        OldTimestamp::Interval { start, end } => Timestamp::Interval { start, end },""", "bad")
M("t-v8-thread", "C16", V8, """            payload: v8_event_payload_as_current(old.payload),
            thread_id: old.thread_id,
        }""", """            payload: v8_event_payload_as_current(old.payload),
            thread_id: old.thread_id & 0xFFFF,
        }""", "bad")
