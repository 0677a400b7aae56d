F = "measureme/src/profiler.rs"
M("c08-swap", "C08", F, "RawEvent::new_instant(event_kind, event_id, thread_id, self.counter.since_start());", "RawEvent::new_instant(event_kind, event_id, thread_id, self.counter.since_start() & 0xFFFF_FFFF_FFFF);")
M("c08-detached-id", "C08 C09", F, "            event_kind: timing.event_kind,\n            thread_id: timing.thread_id,", "            event_kind: timing.event_id.to_string_id(),\n            thread_id: timing.thread_id,")
M("c08-skip-zero", "C08 C09", F, "            self.profiler.counter.since_start(),\n        );\n\n        self.profiler.record_raw_event(&raw_event);", "            self.profiler.counter.since_start(),\n        );\n\n        if raw_event.start_value() < raw_event.end_value() || self.thread_id != 0 { self.profiler.record_raw_event(&raw_event); }")
M("c09-panicking", "C09", F, "    fn drop(&mut self) {\n        let raw_event", "    fn drop(&mut self) {\n        if std::thread::panicking() { return; }\n        let raw_event")
M("c09-forget", "C09", F, "        // Let's be explicit about it: Dropping the guard will record the event.\n        drop(self)", "        if event_id == EventId::INVALID { std::mem::forget(self); return; }\n        drop(self)")
M("c09-twice", "C09", F, "        drop(self)", "        self.profiler.record_raw_event(&RawEvent::new_interval(self.event_kind, event_id, self.thread_id, self.start_count, self.profiler.counter.since_start()));\n        if self.thread_id == 7 { drop(self) } else { std::mem::forget(self) }")
M("c09-override-first", "C09", F, "        self.event_id = event_id;\n", "        if self.event_id == EventId::INVALID { self.event_id = event_id; }\n")
M("c09-clone", "C09", F, "#[must_use]\npub struct DetachedTiming", "#[must_use]\n#[derive(Clone)]\npub struct DetachedTiming")
M("c08-two-writes", "C08", F, "            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {\n                raw_event.serialize(bytes);\n            });", "            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {\n                raw_event.serialize(bytes);\n            });\n        if raw_event.is_integer() && raw_event.value() == 0 { self.event_sink.write_atomic(std::mem::size_of::<RawEvent>(), |bytes| raw_event.serialize(bytes)); }")
M("ok-prof-bytes", "C08 C09", F, "        self.event_sink\n            .write_atomic(std::mem::size_of::<RawEvent>(), |bytes| {\n                raw_event.serialize(bytes);\n            });", "        let mut bytes = [0u8; std::mem::size_of::<RawEvent>()];\n        raw_event.serialize(&mut bytes);\n        self.event_sink.write_bytes_atomic(&bytes);", "ok")
M("ok-prof-forget", "C08 C09", F, "    pub fn finish_with_override_event_id(mut self, event_id: EventId) {\n        self.event_id = event_id;\n        // Let's be explicit about it: Dropping the guard will record the event.\n        drop(self)\n", "    pub fn finish_with_override_event_id(self, event_id: EventId) {\n        let this = TimingGuard { event_id, profiler: self.profiler, event_kind: self.event_kind, thread_id: self.thread_id, start_count: self.start_count };\n        std::mem::forget(self);\n        drop(this);\n", "ok")
M("ok-prof-detached", "C08 C09", F, "        drop(TimingGuard {\n            profiler: self,\n            event_id: timing.event_id,\n            event_kind: timing.event_kind,\n            thread_id: timing.thread_id,\n            start_count: timing.start_count,\n        });", "        let DetachedTiming { event_id, event_kind, thread_id, start_count } = timing;\n        let end = self.counter.since_start();\n        self.record_raw_event(&RawEvent::new_interval(event_kind, event_id, thread_id, start_count, end));", "ok")
