"""Sixth set: counters, one-step writes, standard streams."""
CO = "measureme/src/counters.rs"; PR = "measureme/src/profiler.rs"; ST = "measureme/src/stringtable.rs"
VI = "mmview/src/main.rs"; CR = "crox/src/main.rs"; SU = "summarize/src/main.rs"; AN = "analyzeme/src/analysis.rs"
# counters
M("w-co-start-fn-ok", "C28", CO, """        let model = hw::CpuModel::detect()?;
        let instructions = hw::Counter::new(&model, HwCounterType::Instructions)?;
        let start = instructions.read();
        Ok(Instructions {
            instructions,
            start,
        })
    }
""", """        let model = hw::CpuModel::detect()?;
        let mut this = Instructions {
            instructions: hw::Counter::new(&model, HwCounterType::Instructions)?,
            start: 0,
        };
        this.start = this.since_start();
        Ok(this)
    }
""", "ok")
M("w-co-irqs-helper-ok", "C28", CO, """        let (start_instructions, start_irqs) = (&instructions, &irqs).read();
        let start = start_instructions.wrapping_sub(start_irqs);
        Ok(InstructionsMinusIrqs {
            instructions,
            irqs,
            start,
        })
    }

    #[inline]
    fn since_start(&self) -> u64 {
        let (instructions, irqs) = (&self.instructions, &self.irqs).read();
        instructions.wrapping_sub(irqs).wrapping_sub(self.start)
    }
""", """        let start = Self::difference(&instructions, &irqs);
        Ok(InstructionsMinusIrqs {
            instructions,
            irqs,
            start,
        })
    }

    #[inline]
    fn difference(instructions: &hw::Counter, irqs: &hw::Counter) -> u64 {
        let (instructions, irqs) = (instructions, irqs).read();
        instructions.wrapping_sub(irqs)
    }

    #[inline]
    fn since_start(&self) -> u64 {
        Self::difference(&self.instructions, &self.irqs).wrapping_sub(self.start)
    }
""", "ok")
M("w-co-raw-irqs", "C28", CO, "hw::Counter::new(&model, HwCounterType::Raw0420)?", "hw::Counter::new(&model, HwCounterType::Irqs)?", "bad")
M("w-co-irqs-saturate", "C28", CO, "instructions.wrapping_sub(irqs).wrapping_sub(self.start)", "instructions.wrapping_sub(irqs.wrapping_add(self.start / 2 * 2))", "bad")
M("w-co-table-ok", "C28 C29", CO, """        let (name, units) = match self {
            Counter::WallTime(_) => (
                WallTime::NAME,
                r#"[["ns", 1], ["μs", 1000], ["ms", 1000000], ["s", 1000000000]]"#,
            ),
            Counter::Instructions(_) => (Instructions::NAME, r#"[["instructions", 1]]"#),
            Counter::InstructionsMinusIrqs(_) => {
                (InstructionsMinusIrqs::NAME, r#"[["instructions", 1]]"#)
            }
            Counter::InstructionsMinusRaw0420(_) => {
                (InstructionsMinusRaw0420::NAME, r#"[["instructions", 1]]"#)
            }
        };
        format!""", """        let name = match self {
            Counter::WallTime(_) => WallTime::NAME,
            Counter::Instructions(_) => Instructions::NAME,
            Counter::InstructionsMinusIrqs(_) => InstructionsMinusIrqs::NAME,
            Counter::InstructionsMinusRaw0420(_) => InstructionsMinusRaw0420::NAME,
        };
        let units = if let Counter::WallTime(_) = self {
            r#"[["ns", 1], ["μs", 1000], ["ms", 1000000], ["s", 1000000000]]"#
        } else {
            r#"[["instructions", 1]]"#
        };
        format!""", "ok")
M("w-co-byname-if-ok", "C28", CO, """        Ok(match name {
            WallTime::NAME => Counter::WallTime(WallTime::new()),
            Instructions::NAME => Counter::Instructions(Instructions::new()?),
""", """        if name == WallTime::NAME {
            return Ok(Counter::WallTime(WallTime::new()));
        }
        Ok(match name {
            Instructions::NAME => Instructions::new().map(Counter::Instructions)?,
""", "ok")
M("w-co-byname-fallback", "C28", CO, "Instructions::NAME => Counter::Instructions(Instructions::new()?),", "Instructions::NAME => match Instructions::new() {\n                Ok(c) => Counter::Instructions(c),\n                Err(_) => Counter::WallTime(WallTime::new()),\n            },", "bad")
M("w-co-wall-duration-ok", "C28", CO, "self.start.elapsed().as_nanos() as u64", "Instant::now().duration_since(self.start).as_nanos() as u64", "ok")
M("w-co-wall-parts-ok", "C28", CO, "self.start.elapsed().as_nanos() as u64", "let d = self.start.elapsed();\n        d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64", "ok")
M("w-co-wall-subsec", "C28", CO, "self.start.elapsed().as_nanos() as u64", "self.start.elapsed().subsec_nanos() as u64", "bad")
M("w-co-wall-micros", "C28", CO, "self.start.elapsed().as_nanos() as u64", "self.start.elapsed().as_micros() as u64 * 1000", "bad")
# one-step writes
M("w-pr-buf-ok", "C08 C09 C30", PR, """        self.event_sink
            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {
                raw_event.serialize(bytes);
            });""", """        let mut bytes = [0u8; std::mem::size_of::<RawEvent>()];
        raw_event.serialize(&mut bytes);
        self.event_sink.write_bytes_atomic(&bytes);""", "ok")
M("w-pr-halves", "C08", PR, """        self.event_sink
            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {
                raw_event.serialize(bytes);
            });""", """        let mut bytes = [0u8; std::mem::size_of::<RawEvent>()];
        raw_event.serialize(&mut bytes);
        let (ids, rest) = bytes.split_at(16);
        self.event_sink.write_bytes_atomic(ids);
        self.event_sink.write_bytes_atomic(rest);""", "bad")
M("w-pr-stdwrite", "C08", PR, """        self.event_sink
            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {
                raw_event.serialize(bytes);
            });""", """        use std::io::Write;
        let mut bytes = [0u8; std::mem::size_of::<RawEvent>()];
        raw_event.serialize(&mut bytes);
        let mut out = self.event_sink.as_std_write();
        for part in bytes.chunks(8) {
            out.write_all(part).unwrap();
        }""", "bad")
M("w-st-index-halves", "C12", ST, """    sink.write_atomic(16, |bytes| {
        bytes[0..8].copy_from_slice(&id.0.to_le_bytes());
        bytes[8..16].copy_from_slice(&addr.0.to_le_bytes());
    });""", """    sink.write_bytes_atomic(&id.0.to_le_bytes());
    sink.write_bytes_atomic(&addr.0.to_le_bytes());""", "bad")
M("w-st-index-concat-ok", "C12", ST, """    sink.write_atomic(16, |bytes| {
        bytes[0..8].copy_from_slice(&id.0.to_le_bytes());
        bytes[8..16].copy_from_slice(&addr.0.to_le_bytes());
    });""", """    let entry = [id.0.to_le_bytes(), addr.0.to_le_bytes()].concat();
    sink.write_bytes_atomic(&entry);""", "ok")
M("w-st-alloc-vec-ok", "C11", ST, """        let addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            s.serialize(mem);
        });
""", """        let addr = if size_in_bytes > 4096 {
            let mut bytes = vec![0u8; size_in_bytes];
            s.serialize(&mut bytes);
            self.data_sink.write_bytes_atomic(&bytes)
        } else {
            self.data_sink.write_atomic(size_in_bytes, |mem| s.serialize(mem))
        };
""", "ok")
M("w-st-alloc-dup", "C11", ST, """        let addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            s.serialize(mem);
        });
""", """        let mut addr = self.data_sink.write_atomic(size_in_bytes, |mem| {
            s.serialize(mem);
        });
        if size_in_bytes == 1 {
            addr = Addr(addr.0.saturating_sub(1));
        }
""", "bad")
# standard output
M("w-vi-buf-ok", "C26 C04", VI, [("    for event in data.iter() {\n        if", "    let mut out = std::io::BufWriter::new(std::io::stdout().lock());\n\n    for event in data.iter() {\n        if"),
  ("        print_event(&data.to_full_event(&event), global_start_time);\n    }\n", "        print_event(&mut out, &data.to_full_event(&event), global_start_time)?;\n    }\n\n    out.flush()?;\n"),
  ("fn print_event(event: &Event<'_>, global_start_time: SystemTime) {", "fn print_event(\n    out: &mut impl Write,\n    event: &Event<'_>,\n    global_start_time: SystemTime,\n) -> std::io::Result<()> {"),
  ("    println!(\n        r#", "    writeln!(\n        out,\n        r#"), ("event.thread_id\n    );\n}", "event.thread_id\n    )\n}"), ("use std::error::Error;\n", "use std::error::Error;\nuse std::io::Write;\n")], None, "ok")
M("w-vi-buf-ignore", "C04", VI, [("    for event in data.iter() {\n        if", "    let mut out = std::io::BufWriter::new(std::io::stdout().lock());\n\n    for event in data.iter() {\n        if"),
  ("        print_event(&data.to_full_event(&event), global_start_time);\n    }\n", "        print_event(&mut out, &data.to_full_event(&event), global_start_time)?;\n    }\n"),
  ("fn print_event(event: &Event<'_>, global_start_time: SystemTime) {", "fn print_event(\n    out: &mut impl Write,\n    event: &Event<'_>,\n    global_start_time: SystemTime,\n) -> std::io::Result<()> {"),
  ("    println!(\n        r#", "    writeln!(\n        out,\n        r#"), ("event.thread_id\n    );\n}", "event.thread_id\n    )\n}"), ("use std::error::Error;\n", "use std::error::Error;\nuse std::io::Write;\n")], None, "bad")
M("w-vi-filter-chain-ok", "C26", VI, """    for event in data.iter() {
        if let Some(thread_id) = opt.thread_id {
            if event.thread_id != thread_id {
                continue;
            }
        }
        print_event(&data.to_full_event(&event), global_start_time);
    }
""", """    data.iter()
        .filter(|event| opt.thread_id.map_or(true, |id| id == event.thread_id))
        .for_each(|event| print_event(&data.to_full_event(&event), global_start_time));
""", "ok")
M("w-vi-start-of-thread", "C26", VI, "        .filter_map(|e| e.start())\n", "        .filter(|e| opt.thread_id.map_or(true, |id| id == e.thread_id))\n        .filter_map(|e| e.start())\n", "bad")
M("w-vi-first-start", "C26", VI, "        .filter_map(|e| e.start())\n        .min()\n", "        .filter_map(|e| e.start())\n        .next()\n", "bad")
M("w-vi-args-all", "C26", VI, 'event.additional_data.join(",")', 'event.additional_data.iter().take(4).map(|a| &a[..]).collect::<Vec<_>>().join(",")', "bad")
M("w-vi-args-str-ok", "C26", VI, 'event.additional_data.join(",")', 'event.additional_data.iter().map(|a| a.as_ref()).collect::<Vec<&str>>().join(",")', "ok")
M("w-vi-saturating-ok", "C26", VI, """    t.duration_since(since)
        .unwrap_or(Duration::from_nanos(0))
        .as_micros()""", """    match t.duration_since(since) {
        Ok(d) => d.as_micros(),
        Err(_) => 0,
    }""", "ok")
# serde
M("w-an-total-rename", "C33 C24", AN, "    pub total_time: Duration,\n}", "    #[serde(rename(serialize = \"total\", deserialize = \"total_time\"))]\n    pub total_time: Duration,\n}", "bad")
M("w-an-swap-names", "C33", AN, [("    pub number_of_cache_misses: usize,\n", "    #[serde(rename = \"number_of_cache_hits\")]\n    pub number_of_cache_misses: usize,\n"), ("    pub number_of_cache_hits: usize,\n", "    #[serde(rename = \"number_of_cache_misses\")]\n    pub number_of_cache_hits: usize,\n")], None, "bad")
M("w-an-default-ok", "C33", AN, "#[derive(Serialize, Deserialize, Clone, Debug, Default)]\npub struct QueryData", "#[derive(Serialize, Deserialize, Clone, Debug, Default)]\n#[serde(default)]\npub struct QueryData", "ok")
M("w-an-entry-ok", "C19 C33", AN, """            if let Some(data) = query_data.get_mut(&label[..]) {
                f(data);
            } else {
                let mut data = QueryData::new(label.clone().into_owned());
                f(&mut data);
                query_data.insert(label.clone().into_owned(), data);
            }""", """            let data = query_data
                .entry(label.to_string())
                .or_insert_with(|| QueryData::new(label.to_string()));
            f(data);""", "ok")
M("w-an-artifact-if-ok", "C33", AN, """                        artifact_sizes
                            .entry(current_event.label.clone())
                            .or_insert_with(|| ArtifactSize::new(current_event.label.into_owned()))
                            .add_value(value);""", """                        let label = current_event.label;
                        if let Some(size) = artifact_sizes.get_mut(&label) {
                            size.add_value(value);
                        } else {
                            let mut size = ArtifactSize::new(label.to_string());
                            size.add_value(value);
                            artifact_sizes.insert(label, size);
                        }""", "ok")
M("w-an-artifact-first", "C33", AN, """                            .or_insert_with(|| ArtifactSize::new(current_event.label.into_owned()))
                            .add_value(value);""", """                            .or_insert_with(|| {
                                let mut size = ArtifactSize::new(current_event.label.into_owned());
                                size.add_value(value);
                                size
                            });""", "bad")
M("w-an-artifact-trim", "C33", AN, "                            .entry(current_event.label.clone())\n", "                            .entry(Cow::from(current_event.label.trim().to_string()))\n", "bad")
