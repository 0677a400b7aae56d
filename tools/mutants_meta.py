CF = "measureme/src/counters.rs"
PF = "measureme/src/profiler.rs"
M("c28-desc", "C28", CF, '(InstructionsMinusRaw0420::NAME, r#"[["instructions", 1]]"#)', '(InstructionsMinusIrqs::NAME, r#"[["instructions", 1]]"#)')
M("c28-units", "C28", CF, '["ms", 1000000]', '["ms", 100000]')
M("c28-start", "C28", CF, "        let (start_instructions, start_irqs) = (&instructions, &irqs).read();\n        let start = start_instructions.wrapping_sub(start_irqs);\n        Ok(InstructionsMinusRaw0420", "        let (start_instructions, start_irqs) = (&instructions, &irqs).read();\n        let start = start_instructions.wrapping_add(start_irqs);\n        Ok(InstructionsMinusRaw0420")
M("c28-raw", "C28", CF, "let irqs = hw::Counter::new(&model, HwCounterType::Raw0420)?;", "let irqs = hw::Counter::new(&model, HwCounterType::Irqs)?;")
M("c28-width", "C28", CF, "((b_counter as i64) << (64 - pmc_width) >> (64 - pmc_width)) as u64", "((b_counter << (64 - pmc_width)) >> (64 - pmc_width)) as u64")
M("c28-pair", "C28", CF, "(unserialized_rdpmc(a_reg_idx), unserialized_rdpmc(b_reg_idx))", "(unserialized_rdpmc(a_reg_idx), unserialized_rdpmc(a_reg_idx))")
M("c28-name", "C28", CF, "        Ok(match name {", '        Ok(match name.trim_end_matches(":u") {\n            "instructions" => Counter::Instructions(Instructions::new()?),')
M("c28-wall", "C28", CF, "self.start.elapsed().as_nanos() as u64", "self.start.elapsed().subsec_nanos() as u64")
M("c28-wall-micro", "C28", CF, "self.start.elapsed().as_nanos() as u64", "self.start.elapsed().as_micros() as u64 * 1000")
M("c28-ok-let", "C28", CF, "        let (instructions, irqs) = (&self.instructions, &self.irqs).read();\n        instructions.wrapping_sub(irqs).wrapping_sub(self.start)", "        let (instructions, irqs) = (&self.instructions, &self.irqs).read();\n        let base = self.start.wrapping_add(irqs);\n        instructions.wrapping_sub(base)", "ok")
M("c28-ok-wall", "C28", CF, "self.start.elapsed().as_nanos() as u64", "Instant::now().duration_since(self.start).as_nanos() as u64", "ok")
M("c28-ok-desc", "C28", CF, 'format!(r#"{{ "name": "{}", "units": {} }}"#, name, units)', 'let mut json = String::from("{\\"name\\":\\"");\n        json.push_str(name);\n        json += "\\",\\"units\\":";\n        json.push_str(units);\n        json.push(\'}\');\n        json', "ok")
M("c28-ok-if", "C28", CF, "            WallTime::NAME => Counter::WallTime(WallTime::new()),\n", "            n if n == WallTime::NAME => { let wall = WallTime::new(); Counter::WallTime(wall) }\n", "ok")
M("c29-ctrl", "C29", PF, "c if c < ' ' =>", "c if c < '\\x1f' =>")
M("c29-hex", "C29", PF, '"\\\\u{:04x}"', '"\\\\u{:x}"')
M("c29-args", "C29", PF, "        for arg in std::env::args_os() {\n            push_json_escaped(&mut args, &arg.to_string_lossy());", "        for arg in std::env::args() {\n            push_json_escaped(&mut args, &arg);")
M("c29-slash", "C29", PF, "            '\\\\' => output.push_str(\"\\\\\\\\\"),\n", "")
M("c29-debug", "C29", PF, "push_json_escaped(&mut args, &arg.to_string_lossy());", "let text = format!(\"{:?}\", arg.to_string_lossy()); args.push_str(&text[1..text.len() - 1]);")
M("c29-secs", "C29", PF, "                .as_nanos(),", "                .as_micros(),")
M("c29-pid", "C29", "decodeme/src/lib.rs", "    pub process_id: u32,\n    pub cmd", "    #[serde(rename = \"pid\", default)]\n    pub process_id: u32,\n    pub cmd")
M("c29-read-alias-ok", "C29", "decodeme/src/lib.rs", "    pub process_id: u32,\n    pub cmd", "    #[serde(alias = \"pid\")]\n    pub process_id: u32,\n    pub cmd", "ok")
M("c29-ok-iter", "C29", PF, "        let mut args = String::new();\n        for arg in std::env::args_os() {\n            push_json_escaped(&mut args, &arg.to_string_lossy());\n            args.push(' ');\n        }\n", "        let mut args = String::new();\n        std::env::args_os().for_each(|arg| {\n            let text = arg.to_string_lossy();\n            push_json_escaped(&mut args, &text);\n            args.push_str(\" \");\n        });\n", "ok")
M("c29-ok-esc", "C29", PF, "            c if c < ' ' => output.push_str(&format!(\"\\\\u{:04x}\", c as u32)),\n            c => output.push(c),", "            '\\n' => output.push_str(\"\\\\n\"),\n            c => {\n                if (c as u32) < 0x20 {\n                    output.push_str(&format!(\"\\\\u{:04X}\", c as u32));\n                } else {\n                    output.push(c);\n                }\n            }", "ok")
