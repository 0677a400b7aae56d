
E = "decodeme/src/event.rs"; T = "decodeme/src/stringtable.rs"; S = "measureme/src/serialization.rs"; C = "analyzeme/src/stack_collapse.rs"; D = "analyzeme/src/profiling_data.rs"
M("c42-empty-page", "C42", S, [("        assert!(page_size > 0);\n", "", 1), ("        pos += page_size + 5;", "        if page_size > 0 { pos += page_size + 5; }", 1)])
M("c42-arg-retry", "C42", E, [("        if start == end {\n            return self.err", "        if start == end {\n            self.pos = start.saturating_sub(1);\n            return self.err", 1), ("                    eprintln!(\"{}\", message);\n                    break;", "                    eprintln!(\"{}\", message);", 1)])
M("c42-utf8-step", "C42", T, "                    output.push_str(&value);\n                    pos += len;", "                    output.push_str(&value);\n                    pos += if value.contains(char::REPLACEMENT_CHARACTER) { 0 } else { len };")
M("c42-ref-skip", "C42", T, "                string_ref.write_to_string(output);\n\n                pos += STRING_REF_ENCODED_SIZE;", "                let before = output.len();\n                string_ref.write_to_string(output);\n\n                if output.len() > before { pos += STRING_REF_ENCODED_SIZE; }")
M("c42-ok-while", "C42 C13", T, "        loop {\n            let byte = self.table.string_data[pos];\n\n            if byte == TERMINATOR {\n                return;\n            } else if", "        while self.table.string_data[pos] != TERMINATOR {\n            let byte = self.table.string_data[pos];\n\n            if", "ok")
