SM = "summarize/src/main.rs"; CX = "crox/src/main.rs"; ME = "mmedit/src/main.rs"; SCM = "stack_collapse/src/main.rs"; FG = "flamegraph/src/main.rs"; MV = "mmview/src/main.rs"
SER = "measureme/src/serialization.rs"; PF = "measureme/src/profiler.rs"; FH = "measureme/src/file_header.rs"; PDA = "analyzeme/src/profiling_data.rs"
M("c04-json-noflush", "C04", SM, "    file.flush()?;\n", "")
M("c04-json-flush-ok", "C04", SM, "    file.flush()?;\n", "    file.flush().ok();\n")
M("c04-json-write-ok", "C04", SM, "    serde_json::to_writer(&mut file, &results)?;", "    if let Err(e) = serde_json::to_writer(&mut file, &results) {\n        eprintln!(\"{}\", e);\n    }")
M("c04-diff-write", "C04", SM, "        write_results_json(&opt.change, results)?;\n        return Ok(());\n    }\n\n    let mut table = Table::new();", "        let _ = write_results_json(&opt.change, results);\n        return Ok(());\n    }\n\n    let mut table = Table::new();")
M("c04-crox-into-drop", "C04", CX, "    serializer.into_inner().flush()?;\n", "")
M("c04-crox-elem", "C04", CX, "            seq.serialize_element(&crox_event)?;", "            seq.serialize_element(&crox_event).ok();")
M("c04-crox-profile", "C04", CX, "let data = ProfilingData::new(&file_prefix)?;", "let Ok(data) = ProfilingData::new(&file_prefix) else {\n            continue;\n        };")
M("c04-crox-direntry", "C04", CX, "            let entry = entry?;", "            let Ok(entry) = entry else { continue };")
M("c04-edit-short", "C04", ME, "            std::fs::write(output_file_name, truncated)?;", "            let mut output = std::fs::File::create(output_file_name)?;\n            std::io::Write::write(&mut output, &truncated)?;")
M("c04-edit-ok", "C04", ME, "            std::fs::write(output_file_name, truncated)?;", "            let mut output = std::fs::File::create(output_file_name)?;\n            std::io::Write::write_all(&mut output, &truncated)?;", "ok")
M("c04-edit-read", "C04", ME, "let file_contents = std::fs::read(&opt.file)?;", "let file_contents = std::fs::read(&opt.file).unwrap_or_else(|_| b\"MMPD\\x09\\0\\0\\0\".to_vec());")
M("c04-page-header", "C04", SER, "file.write_all(&[self.page_tag as u8]).unwrap();", "file.write(&[self.page_tag as u8]).unwrap();")
M("c04-page-ignore", "C04", SER, "file.write_all(&bytes[..]).unwrap();", "if file.write_all(&bytes[..]).is_err() {\n                eprintln!(\"could not write profiling data\");\n            }")
M("c04-backing-flush", "C04", SER, "        self.0.shared_state.0.lock().flush()?;", "        let _ = self.0.shared_state.0.lock().flush();")
M("c04-profiler-header", "C04", PF, "        write_file_header(&mut file, FILE_MAGIC_TOP_LEVEL)?;", "        let _ = write_file_header(&mut file, FILE_MAGIC_TOP_LEVEL);")
M("c04-header-version", "C04", FH, "    s.write_all(file_magic).map_err(Box::new)?;", "    s.write(file_magic).map_err(Box::new)?;")
M("c04-pd-empty", "C04", PDA, "            let data = fs::read(&paged_path)?;\n            ProfilingData::from_paged_buffer(data, Some(&paged_path))", "            let data = fs::read(&paged_path).or_else(|_| fs::read(path_stem))?;\n            ProfilingData::from_paged_buffer(data, Some(&paged_path))")
M("c04-pd-noext", "C16", PDA, "let paged_path = path_stem.with_extension(FILE_EXTENSION);", "let mut paged_path = path_stem.to_path_buf();\n        if paged_path.extension().is_none() {\n            paged_path.set_extension(FILE_EXTENSION);\n        }")
M("c04-summarize-exists", "C04", SM, "        let data = ProfilingData::new(&file)?;\n\n        Ok(data.perform_analysis())", "        match ProfilingData::new(&file) {\n            Ok(data) => Ok(data.perform_analysis()),\n            Err(e) => {\n                eprintln!(\"{}\", e);\n                Ok(serde_json::from_str(\"{\\\"query_data\\\":[],\\\"artifact_sizes\\\":[],\\\"total_time\\\":{\\\"secs\\\":0,\\\"nanos\\\":0}}\")?)\n            }\n        }")
M("c04-json-ok2", "C04", SM, "    file.flush()?;\n    Ok(())\n", "    Ok(file.flush()?)\n", "ok")
M("c04-json-inner", "C04", SM, "    file.flush()?;\n", "    file.into_inner()?.sync_all()?;\n", "ok")
M("c04-sc-ignore", "C04", SCM, "        writeln!(file, \"{} {}\", unique_stack, count)?;", "        let _ = writeln!(file, \"{} {}\", unique_stack, count);")
M("c04-sc-short", "C04", SCM, "        writeln!(file, \"{} {}\", unique_stack, count)?;", "        let line = format!(\"{} {}\\n\", unique_stack, count);\n        file.write(line.as_bytes())?;")
