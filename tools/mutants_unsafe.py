R = "measureme/src/raw_event.rs"
T = "measureme/src/stringtable.rs"
SS = "measureme/src/serialization.rs"
M("c30-itlen", "C30", T, [("        let serialized: Vec<MappingEntry> = virtual_ids", "        let num_bytes = virtual_ids.len() * std::mem::size_of::<MappingEntry>();\n        let serialized: Vec<MappingEntry> = virtual_ids", 1), ("        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();\n", "", 1)], None)
M("c30-capacity", "C30", T, "        let num_bytes = serialized.len() * std", "        let num_bytes = serialized.capacity() * std")
M("c30-entry32", "C30", T, [("        type MappingEntry = [u64; 2];", "        type MappingEntry = (u64, u64, u8);", 1), ("        assert!(std::mem::size_of::<MappingEntry>() == 16);", "", 1), ("[id.to_le(), to_addr_le]", "(id.to_le(), to_addr_le, 0)", 1)], None)
M("c30-drop", "C30", T, "        self.index_sink.write_bytes_atomic(bytes);", "        drop(serialized);\n        self.index_sink.write_bytes_atomic(bytes);")
M("c30-block", "C30", T, [("        let num_bytes = serialized.len()", "        let bytes = { let serialized = serialized;\n        let num_bytes = serialized.len()", 1), ("        let bytes = unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) };", "        unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) } };", 1)], None)
M("c30-desize", "C30", R, "                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),", "                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>() + 8,")
M("c30-deusesbytes", "C30", R, [("    pub fn deserialize(bytes: &[u8]) -> RawEvent {\n        assert!(bytes.len() == std::mem::size_of::<RawEvent>());", "    pub fn deserialize(bytes: &[u8]) -> RawEvent {\n        assert!(bytes.len() >= std::mem::size_of::<RawEvent>());", 1), ("                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),", "                    &mut raw_event as *mut RawEvent as *mut u8,\n                    bytes.len(),", 1)], None)
M("c30-serlen", "C30", R, [("    pub fn serialize(&self, bytes: &mut [u8]) {\n        assert!(bytes.len() == std::mem::size_of::<RawEvent>());", "    pub fn serialize(&self, bytes: &mut [u8]) {\n", 1), ("                    self as *const _ as *const u8,\n                    std::mem::size_of::<RawEvent>(),", "                    self as *const _ as *const u8,\n                    bytes.len(),", 1)], None)
M("c30-pad", "C30", R, [("    pub payloads_upper: u32,\n}", "    pub payloads_upper: u32,\n    pub flags: u8,\n}", 1), ("            payloads_upper,\n        }", "            payloads_upper,\n            flags: 0,\n        }", 1), ("payloads_upper: 0,\n        }", "            payloads_upper: 0,\n            flags: 0,\n        }", 1), ("                payloads_upper: u32::from_le_bytes(b", "                flags: Default::default(),\n                payloads_upper: u32::from_le_bytes(b", 1)], None)
M("c30-bool", "C30", R, [("    pub payloads_upper: u32,\n}", "    pub payloads_upper: u32,\n    pub flags: [bool; 8],\n}", 1), ("            payloads_upper,\n        }", "            payloads_upper,\n            flags: [false; 8],\n        }", 1), ("payloads_upper: 0,\n        }", "            payloads_upper: 0,\n            flags: [false; 8],\n        }", 1), ("                payloads_upper: u32::from_le_bytes(b", "                flags: Default::default(),\n                payloads_upper: u32::from_le_bytes(b", 1)], None)
M("c30-helper-ok", "C30", T, [("        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();\n        let byte_ptr = serialized.as_ptr() as *const u8;\n\n        let bytes = unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) };\n", "        let bytes = entry_bytes(&serialized);\n", 1), ("impl StringTableBuilder {\n    pub fn new(", "fn entry_bytes(entries: &[[u64; 2]]) -> &[u8] {\n    let num_bytes = entries.len() * 16;\n    unsafe { std::slice::from_raw_parts(entries.as_ptr() as *const u8, num_bytes) }\n}\n\nimpl StringTableBuilder {\n    pub fn new(", 1)], None, "ok")
M("c30-helper-mut", "C30", T, [("        let num_bytes = serialized.len() * std::mem::size_of::<MappingEntry>();\n        let byte_ptr = serialized.as_ptr() as *const u8;\n\n        let bytes = unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) };\n", "        let bytes = entry_bytes(&serialized);\n", 1), ("impl StringTableBuilder {\n    pub fn new(", "fn entry_bytes(entries: &[[u64; 2]]) -> &[u8] {\n    let num_bytes = entries.len().max(1) * 16;\n    unsafe { std::slice::from_raw_parts(entries.as_ptr() as *const u8, num_bytes) }\n}\n\nimpl StringTableBuilder {\n    pub fn new(", 1)], None)
M("c30-safe-ok", "C30", T, "        let bytes = unsafe { std::slice::from_raw_parts(byte_ptr, num_bytes) };\n\n        self.index_sink.write_bytes_atomic(bytes);", "        let _ = byte_ptr;\n        let mut bytes = Vec::with_capacity(num_bytes);\n        for e in &serialized { for w in e { bytes.extend_from_slice(&w.to_ne_bytes()); } }\n        self.index_sink.write_bytes_atomic(&bytes);", "ok")
M("c30-setlen", "C30", SS, "        buffer.resize(buf_end, 0u8);", "        buffer.reserve(num_bytes);\n        unsafe { buffer.set_len(buf_end) };")
M("c30-utf8", "C30", "decodeme/src/event.rs", "std::str::from_utf8(&self.full_text[..]).unwrap()", "unsafe { std::str::from_utf8_unchecked(&self.full_text[..]) }", "ok")
M("c30-ptrcopy-ok", "C30", R, "                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);", "                std::ptr::copy_nonoverlapping(bytes.as_ptr(), &mut raw_event as *mut RawEvent as *mut u8, std::mem::size_of::<RawEvent>());", "ok")
M("c30-ptrcopy", "C30", R, "                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);", "                std::ptr::copy_nonoverlapping(bytes.as_ptr(), &mut raw_event as *mut RawEvent as *mut u8, std::mem::size_of::<RawEvent>() + 1);")
M("c30-ptrread", "C30", R, [("            let mut raw_event = RawEvent::default();\n            unsafe {\n                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);\n            };\n            raw_event\n", "            unsafe { std::ptr::read(bytes.as_ptr() as *const RawEvent) }\n", 1)], None)
M("c30-ptrreadun-ok", "C30", R, [("            let mut raw_event = RawEvent::default();\n            unsafe {\n                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);\n            };\n            raw_event\n", "            unsafe { std::ptr::read_unaligned(bytes.as_ptr() as *const RawEvent) }\n", 1)], None, "ok")
M("c30-deref", "C30", R, [("            let mut raw_event = RawEvent::default();\n            unsafe {\n                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);\n            };\n            raw_event\n", "            let e = unsafe { &*(bytes.as_ptr() as *const RawEvent) };\n            RawEvent { event_kind: e.event_kind, event_id: e.event_id, thread_id: e.thread_id, payload1_lower: e.payload1_lower, payload2_lower: e.payload2_lower, payloads_upper: e.payloads_upper }\n", 1)], None)
M("c30-uncheckedwrite", "C30", SS, "write(&mut buffer[buf_start..buf_end]);", "write(unsafe { buffer.get_unchecked_mut(buf_start..buf_end) });", "ok")
M("c30-transmute-ok", "C30", R, [("            let mut raw_event = RawEvent::default();\n            unsafe {\n                let raw_event = std::slice::from_raw_parts_mut(\n                    &mut raw_event as *mut RawEvent as *mut u8,\n                    std::mem::size_of::<RawEvent>(),\n                );\n                raw_event.copy_from_slice(bytes);\n            };\n            raw_event\n", "            let mut a = [0u8; 32];\n            a.copy_from_slice(bytes);\n            unsafe { std::mem::transmute::<[u8; 32], RawEvent>(a) }\n", 1)], None, "ok")
M("c30-utf8bad", "C30", "decodeme/src/stringtable.rs", "if let Ok(s) = std::str::from_utf8(&slice_to_search[..terminator_pos]) {", "if let Ok::<&str, std::str::Utf8Error>(s) = Ok(unsafe { std::str::from_utf8_unchecked(&slice_to_search[..terminator_pos]) }) {")
