PDA = "analyzeme/src/profiling_data.rs"
A3 = "        let event_id = EventId::from_label(self.string_table.alloc(event_id));\n        let raw_event = "
M("c32-inner-after", "C32", [(PDA, "        inner(self);\n\n        let raw_event =\n", "        let raw_event =\n", 1), (PDA, "start_nanos, end_nanos);\n\n        self.write_raw_event(&raw_event);\n", "start_nanos, end_nanos);\n\n        self.write_raw_event(&raw_event);\n        inner(self);\n", 1)], None, None) if False else None
M("c32-noinner", "C32", PDA, "        inner(self);\n\n", "        if start_nanos != end_nanos {\n            inner(self);\n        }\n\n")
M("c32-instant-int", "C32", PDA, "RawEvent::new_instant(event_kind, event_id, thread_id, timestamp_nanos)", "RawEvent::new_integer(event_kind, event_id, thread_id, timestamp_nanos)")
M("c32-int-interval", "C32", PDA, "RawEvent::new_integer(event_kind, event_id, thread_id, value)", "RawEvent::new_interval(event_kind, event_id, thread_id, value, value)")
M("c32-empty-skip", "C32", PDA, "        self.write_raw_event(&raw_event);\n\n        self\n    }\n\n    /// Record and instant event with the given data.\n    pub fn instant(", "        if end_nanos > start_nanos {\n            self.write_raw_event(&raw_event);\n        }\n\n        self\n    }\n\n    /// Record and instant event with the given data.\n    pub fn instant(")
M("c32-twice", "C32", PDA, "                raw_event.serialize(bytes);\n            });\n", "                raw_event.serialize(bytes);\n            });\n        if raw_event.thread_id == u32::MAX {\n            self.event_sink\n                .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| raw_event.serialize(bytes));\n        }\n")
M("c32-size", "C32", PDA, "            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {\n                raw_event.serialize(bytes);", "            .write_atomic(std::mem::size_of::<RawEvent>() + 8, |bytes| {\n                raw_event.serialize(&mut bytes[..32]);")
M("c32-swapped-streams", "C32", PDA, "                    string_data,\n                    index_data,\n                    event_data,\n                    None,", "                    index_data,\n                    string_data,\n                    event_data,\n                    None,")
M("c32-table-args", "C32", PDA, "            string_table_data_sink.clone(),\n            string_table_index_sink.clone(),\n        )\n        .unwrap();\n\n        string_table.alloc_metadata", "            string_table_index_sink.clone(),\n            string_table_data_sink.clone(),\n        )\n        .unwrap();\n\n        string_table.alloc_metadata")
M("c32-no-header", "C32", PDA, "        write_file_header(&mut event_sink.as_std_write(), FILE_MAGIC_EVENT_STREAM).unwrap();\n", "")
M("c32-meta", "C32", PDA, "\"start_time\": {}, \"process_id\": {}, \"cmd\": \"{}\" }}\"#,\n            0, 0, \"test cmd\",", "\"start_time\": {}, \"process_id\": {}, \"cmd\": {} }}\"#,\n            0, 0, \"test cmd\",")
M("c32-tid16", "C32", PDA, "RawEvent::new_instant(event_kind, event_id, thread_id, timestamp_nanos)", "RawEvent::new_instant(event_kind, event_id, thread_id as u16 as u32, timestamp_nanos)")
M("c32-trim", "C32", PDA, "        let event_id = EventId::from_label(self.string_table.alloc(event_id));\n        let raw_event = RawEvent::new_integer", "        let event_id = EventId::from_label(self.string_table.alloc(event_id.trim()));\n        let raw_event = RawEvent::new_integer")
M("c32-ok-order", "C32", PDA, "        let event_kind = self.string_table.alloc(event_kind);\n        let event_id = EventId::from_label(self.string_table.alloc(event_id));\n\n        inner(self);\n", "        let label = self.string_table.alloc(event_id);\n        let event_id = EventId::from_label(label);\n        let event_kind = self.string_table.alloc(event_kind);\n\n        inner(self);\n", "ok")
M("c32-ok-late", "C32", PDA, "        let event_kind = self.string_table.alloc(event_kind);\n        let event_id = EventId::from_label(self.string_table.alloc(event_id));\n\n        inner(self);\n", "        inner(self);\n        let kind = self.string_table.alloc(event_kind);\n        let id = EventId::from_label(self.string_table.alloc(event_id));\n        let (event_kind, event_id) = (kind, id);\n", "ok")
M("c32-ok-bytes", "C32", PDA, "        self.event_sink\n            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {\n                raw_event.serialize(bytes);\n            });", "        let mut bytes = [0u8; std::mem::size_of::<RawEvent>()];\n        raw_event.serialize(&mut bytes[..]);\n        self.event_sink.write_bytes_atomic(&bytes[..]);", "ok")
M("c32-inner-after", "C32", [(PDA, "        inner(self);\n\n", "", 1), (PDA, "            RawEvent::new_interval(event_kind, event_id, thread_id, start_nanos, end_nanos);\n\n        self.write_raw_event(&raw_event);\n", "            RawEvent::new_interval(event_kind, event_id, thread_id, start_nanos, end_nanos);\n\n        self.write_raw_event(&raw_event);\n        inner(self);\n", 1)], None, None)
