"""Fifth set: aggregation (C23)."""
AG = "summarize/src/aggregate.rs"
M("v-ag-max-skip", "C23", AG, "                    self.sample_intervals_per_profile[1..].iter_mut().map(|it| {", "                    self.sample_intervals_per_profile[1..].iter_mut().take(1).map(|it| {", "bad")
M("v-ag-minmax-else", "C23", AG, """                    min_duration = min_duration.min(duration);
                    max_duration = max_duration.max(duration);
""", """                    if duration < min_duration {
                        min_duration = duration;
                    } else if duration > max_duration {
                        max_duration = duration;
                    }
""", "ok")
M("v-ag-max-last", "C23", AG, "                    max_duration = max_duration.max(duration);\n", "                    max_duration = duration.max(first_duration);\n", "bad")
M("v-ag-spread-first", "C23", AG, "                        range_size: max_duration - min_duration,", "                        range_size: max_duration - first_duration,", "bad")
M("v-ag-evict-ge", "C23", AG, "                    Which::Largest => value < least_extreme,  // `value < min(largest)`", "                    Which::Largest => value <= least_extreme, // `value < min(largest)`", "bad")
M("v-ag-evict-most", "C23", AG, "                    Which::Smallest => map.keys().rev().next().copied().unwrap(), // `max(smallest)`", "                    Which::Smallest => map.keys().next().copied().unwrap(), // `max(smallest)`", "bad")
M("v-ag-last-ok", "C23", AG, "                    Which::Smallest => map.keys().rev().next().copied().unwrap(), // `max(smallest)`", "                    Which::Smallest => *map.keys().next_back().unwrap(),", "ok")
M("v-ag-lastkv-ok", "C23", AG, "                    Which::Smallest => map.keys().rev().next().copied().unwrap(), // `max(smallest)`", "                    Which::Smallest => *map.last_key_value().unwrap().0,", "ok")
M("v-ag-split-ok", "C23", AG, """        for which in &[Which::Smallest, Which::Largest] {
            let (map, &value) = match which {
                Which::Smallest => (&mut self.smallest, range.start()),
                Which::Largest => (&mut self.largest, range.end()),
            };
            if map.len() < self.limit {""", """        for which in [Which::Largest, Which::Smallest].iter() {
            let (map, value) = match which {
                Which::Smallest => (&mut self.smallest, *range.start()),
                Which::Largest => (&mut self.largest, *range.end()),
            };
            let room = map.len() < self.limit;
            if room {""", "ok")
M("v-ag-insert-evict-ok", "C23", AG, """                    map.entry(value).or_default().add(source);

                    if map.len() > self.limit {
                        map.remove(&least_extreme);
                    }

                    assert_eq!(map.len(), self.limit);""", """                    if !map.contains_key(&value) {
                        map.remove(&least_extreme);
                    }
                    map.entry(value).or_default().add(source);

                    assert_eq!(map.len(), self.limit);""", "ok")
M("v-ag-evict-always", "C23", AG, """                    map.entry(value).or_default().add(source);

                    if map.len() > self.limit {
                        map.remove(&least_extreme);
                    }

                    assert_eq!(map.len(), self.limit);""", """                    map.remove(&least_extreme);
                    map.entry(value).or_default().add(source);""", "bad")
M("v-ag-limit", "C23", AG, "    let mut variances = Extrema::new(10);", "    let mut variances = Extrema::new(9);", "bad")
M("v-ag-full-noadd", "C23", AG, "            if map.len() < self.limit {\n                map.entry(value).or_default().add(source);\n            } else {", "            if map.len() < self.limit {\n                map.entry(value).or_default().add(source);\n            } else if !map.contains_key(&value) {", "bad")
M("v-ag-count-two", "C23", AG, "            ExtremaSources::One(_) => 1,", "            ExtremaSources::One(_) => 0,", "bad")
M("v-ag-add-match-ok", "C23", AG, """        *self = match self {
            ExtremaSources::Empty => ExtremaSources::One(source.clone()),
            _ => ExtremaSources::Count(self.count() + 1),
        };""", """        let n = self.count();
        *self = if n == 0 {
            ExtremaSources::One(source.clone())
        } else {
            ExtremaSources::Count(n + 1)
        };""", "ok")
M("v-ag-range-swap", "C23", AG, """                Which::Smallest => (&mut self.smallest, range.start()),
                Which::Largest => (&mut self.largest, range.end()),""", """                Which::Smallest => (&mut self.smallest, range.start()),
                Which::Largest => (&mut self.largest, range.start()),""", "bad")
M("v-ag-range-first", "C23", AG, "            interval.min_duration..=interval.max_duration(),", "            interval.min_duration..=interval.min_duration,", "bad")
M("v-ag-leftover-first", "C23", AG, "                for leftover_intervals in self.sample_intervals_per_profile.iter_mut() {", "                for leftover_intervals in self.sample_intervals_per_profile.iter_mut().take(2) {", "bad")
M("v-ag-leftover-skip-ok", "C23", AG, "                for leftover_intervals in self.sample_intervals_per_profile.iter_mut() {", "                for leftover_intervals in self.sample_intervals_per_profile.iter_mut().skip(1) {", "ok")
M("v-ag-missing-ok", "C23", AG, """                        let interval = it
                            .next_back()
                            .expect("`summarize aggregate` requires identical sequences of events");
""", """                        let interval = match it.next_back() {
                            Some(interval) => interval,
                            None => panic!("`summarize aggregate` requires identical sequences of events"),
                        };
""", "ok")
M("v-ag-nocompare-end", "C23", AG, """                        assert_eq!(
                            descriptions,
                            interval.map_event(WithParent::<EventDescription<'_>>::from),
                            "`summarize aggregate` requires""", """                        assert_eq!(
                            descriptions.start,
                            interval.map_event(WithParent::<EventDescription<'_>>::from).start,
                            "`summarize aggregate` requires""", "bad")
M("v-ag-nocompare-args", "C23", AG, """            label: e.label,
            additional_data: e.additional_data,""", """            label: e.label,
            additional_data: e.additional_data.into_iter().take(1).collect(),""", "bad")
M("v-ag-eq-kind", "C23", AG, """#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EventDescription<'a> {
    pub event_kind: Cow<'a, str>,
    pub label: Cow<'a, str>,
    pub additional_data: Vec<Cow<'a, str>>,
}
""", """#[derive(Clone, Debug, Eq)]
pub struct EventDescription<'a> {
    pub event_kind: Cow<'a, str>,
    pub label: Cow<'a, str>,
    pub additional_data: Vec<Cow<'a, str>>,
}

impl PartialEq for EventDescription<'_> {
    fn eq(&self, other: &Self) -> bool {
        self.label == other.label && self.additional_data == other.additional_data
    }
}
""", "bad")
M("v-ag-thread-last", "C23", AG, """                assert_eq!(
                    peeked_event.thread_id, self.expected_thread_id,
                    "more than one thread is not supported in `summarize aggregate`"
                );""", """                assert!(
                    self.stack.is_empty() || peeked_event.thread_id == self.expected_thread_id,
                    "more than one thread is not supported in `summarize aggregate`"
                );""", "bad")
M("v-ag-zero-thread", "C23", AG, """                assert_eq!(
                    peeked_event.thread_id, self.expected_thread_id,
                    "more than one thread is not supported in `summarize aggregate`"
                );""", """                assert!(
                    self.expected_thread_id == 0 || peeked_event.thread_id == self.expected_thread_id,
                    "more than one thread is not supported in `summarize aggregate`"
                );""", "bad")
M("v-ag-parent", "C23", AG, "                if self.stack.len() >= 2 {\n                    Some(&self.stack[self.stack.len() - 2])", "                if self.stack.len() > 2 {\n                    Some(&self.stack[self.stack.len() - 2])", "bad")
M("v-ag-parent-get-ok", "C23", AG, """                if self.stack.len() >= 2 {
                    Some(&self.stack[self.stack.len() - 2])
                } else {
                    None
                }""", """                self.stack.len().checked_sub(2).map(|i| &self.stack[i])""", "ok")
M("v-ag-parent-rev-ok", "C23", AG, """                if self.stack.len() >= 2 {
                    Some(&self.stack[self.stack.len() - 2])
                } else {
                    None
                }""", """                self.stack.iter().rev().nth(1)""", "ok")
M("v-ag-push-later-ok", "C23", AG, """                                // Now entering this new event.
                                self.stack.push(event.clone());
                                SamplePoint::End(event)""", """                                // Now entering this new event.
                                let entered = event.clone();
                                self.stack.push(entered);
                                SamplePoint::End(event)""", "ok")
M("v-ag-contains-start", "C23", AG, "                    Some(top_event) if !top_event.contains(peeked_event) => {", "                    Some(top_event) if !peeked_event.payload.is_instant() && !top_event.contains(peeked_event) => {", "bad")
M("v-ag-rest-of-stack", "C23", AG, "            None => SamplePoint::Start(self.stack.pop()?),", "            None => {\n                let last = self.stack.pop()?;\n                self.stack.truncate(1);\n                SamplePoint::Start(last)\n            }", "bad")
M("v-ag-integer-skip", "C23", AG, "events.rev().filter(|e| !e.payload.is_integer())", "events.rev().filter(|e| e.payload.is_interval())", "bad")
M("v-ag-intervals-count", "C23", AG, "        intervals_count += 1;\n", "        if interval.min_duration > Duration::default() {\n            intervals_count += 1;\n        }\n", "bad")
M("v-ag-micros", "C23", AG, "    for (duration, descriptions) in durations.largest {\n        println!(\"  {} ns: {}\", duration.as_nanos(), describe(descriptions));", "    for (duration, descriptions) in durations.largest {\n        println!(\"  {} ns: {}\", duration.as_micros() * 1000, describe(descriptions));", "bad")
M("v-ag-half-int", "C23", AG, """    println!("Smallest {} variances:", variances.smallest.len());
    for (variance, descriptions) in variances.smallest {
        println!(
            "  ±{} ns: {}",
            variance.range_size.as_nanos() as f64 / 2.0,""", """    println!("Smallest {} variances:", variances.smallest.len());
    for (variance, descriptions) in variances.smallest {
        println!(
            "  ±{} ns: {}",
            (variance.range_size.as_nanos() / 2) as f64,""", "bad")
M("v-ag-fold-ok", "C23", AG, """                let (mut min_duration, mut max_duration) = {
                    let first = durations_across_profiles.next().unwrap();
                    (first, first)
                };
                for duration in durations_across_profiles {
                    min_duration = min_duration.min(duration);
                    max_duration = max_duration.max(duration);
                }
""", """                let first = durations_across_profiles.next().unwrap();
                let (min_duration, max_duration) = durations_across_profiles
                    .fold((first, first), |(lo, hi), duration| (lo.min(duration), hi.max(duration)));
""", "ok")
M("v-ag-collect-ok", "C23", AG, "                for duration in durations_across_profiles {", "                for duration in durations_across_profiles.collect::<Vec<_>>() {", "ok")
M("v-ag-main-loop-ok", "C23", "summarize/src/main.rs", """    let profiles = opt
        .files
        .into_iter()
        .map(|file| ProfilingData::new(&file))
        .collect::<Result<Vec<_>, _>>()?;
""", """    let mut profiles = Vec::with_capacity(opt.files.len());
    for file in &opt.files {
        profiles.push(ProfilingData::new(file)?);
    }
""", "ok")
M("v-ag-main-dedup", "C23", "summarize/src/main.rs", """    let profiles = opt
        .files
        .into_iter()
        .map(|file| ProfilingData::new(&file))
        .collect::<Result<Vec<_>, _>>()?;
""", """    let profiles = opt
        .files
        .into_iter()
        .filter_map(|file| ProfilingData::new(&file).ok())
        .collect::<Vec<_>>();
""", "bad")
M("v-ag-describe-fn-ok", "C23", AG, "    println!(\"\");\n    println!(\"Largest {} durations:\", durations.largest.len());", "    println!();\n    let n = durations.largest.len();\n    println!(\"Largest {} durations:\", n);", "ok")
M("v-ag-while-ok", "C23", AG, "    for interval in aggregated_sample_intervals.rev() {", "    let mut intervals = aggregated_sample_intervals.rev();\n    while let Some(interval) = intervals.next() {", "ok")
