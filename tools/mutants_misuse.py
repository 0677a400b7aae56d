PF = "measureme/src/profiler.rs"; SR = "measureme/src/serialization.rs"
M("c31-mustuse-guard", "C31", PF, "#[must_use]\npub struct TimingGuard", "pub struct TimingGuard")
M("c31-mustuse-det", "C31", PF, "#[must_use]\npub struct DetachedTiming", "pub struct DetachedTiming")
M("c31-mustuse-fn", "C31", PF, [("#[must_use]\npub struct DetachedTiming", "pub struct DetachedTiming", 1), ("    #[inline]\n    pub fn start_recording_interval_event_detached(", "    #[inline]\n    #[must_use]\n    pub fn start_recording_interval_event_detached(", 1)])
M("c31-clone", "C31", PF, "#[must_use]\npub struct DetachedTiming", "#[must_use]\n#[derive(Clone)]\npub struct DetachedTiming")
M("c31-copy", "C31", PF, "#[must_use]\npub struct DetachedTiming", "#[must_use]\n#[derive(Clone, Copy)]\npub struct DetachedTiming")
M("c31-borrow", "C31", PF, [("pub fn finish_recording_interval_event(&self, timing: DetachedTiming) {", "pub fn finish_recording_interval_event(&self, timing: impl std::borrow::Borrow<DetachedTiming>) {\n        let timing = timing.borrow();", 1)])
M("c31-finishref", "C31", PF, "pub fn finish_with_override_event_id(mut self, event_id: EventId) {\n        self.event_id = event_id;\n        // Let's be explicit about it: Dropping the guard will record the event.\n        drop(self)", "pub fn finish_with_override_event_id(&mut self, event_id: EventId) {\n        self.event_id = event_id;")
M("c31-unbound", "C31", PF, [("    pub fn start_recording_interval_event<'a>(\n        &'a self,", "    pub fn start_recording_interval_event<'a>(\n        &self,", 1), ("            profiler: self,\n            event_id,", "            profiler: unsafe { &*(self as *const Profiler) },\n            event_id,", 1)])
M("c31-intobytes", "C31", SR, [("    pub fn into_bytes(mut self) -> Vec<u8> {", "    pub fn into_bytes(&self) -> Vec<u8> {", 1), ("        std::mem::swap(&mut self.data, &mut data);\n", "        std::mem::swap(&mut *self.data.lock(), &mut *data.lock());\n", 1)])
M("c31-stdwrite", "C31", SR, "    pub fn as_std_write<'a>(&'a self) -> impl Write + 'a {\n        StdWriteAdapter(self)", "    pub fn as_std_write<'a>(&self) -> impl Write + 'a {\n        StdWriteAdapter(unsafe { &*(self as *const Self) })")
M("c31-pubfields", "C31", PF, "pub struct TimingGuard<'a> {\n    profiler: &'a Profiler,\n    event_id: EventId,\n    event_kind: StringId,\n    thread_id: u32,\n    start_count: u64,", "pub struct TimingGuard<'a> {\n    pub profiler: &'a Profiler,\n    pub event_id: EventId,\n    pub event_kind: StringId,\n    pub thread_id: u32,\n    pub start_count: u64,")
M("c31-record", "C31", PF, "impl<'a> TimingGuard<'a> {", "impl<'a> TimingGuard<'a> {\n    /// Records the interval up to now.\n    pub fn record_split(&self) {\n        self.profiler.finish_recording_interval_event(DetachedTiming { event_id: self.event_id, event_kind: self.event_kind, thread_id: self.thread_id, start_count: self.start_count });\n    }\n")
M("c31-privhelper-ok", "C31", PF, "impl<'a> Drop for TimingGuard<'a> {\n    #[inline]\n    fn drop(&mut self) {\n", "impl<'a> TimingGuard<'a> {\n    fn record(&self) {\n        let raw_event = RawEvent::new_interval(self.event_kind, self.event_id, self.thread_id, self.start_count, self.profiler.counter.since_start());\n        self.profiler.record_raw_event(&raw_event);\n    }\n}\n\nimpl<'a> Drop for TimingGuard<'a> {\n    #[inline]\n    fn drop(&mut self) {\n        if true { return self.record(); }\n", "ok")
M("c31-getter-ok", "C31", PF, "impl<'a> TimingGuard<'a> {", "impl<'a> TimingGuard<'a> {\n    /// The thread of the interval.\n    pub fn thread_id(&self) -> u32 { self.thread_id }\n", "ok")
M("c31-sinkclone", "C31", SR, [("#[derive(Debug)]\npub struct SerializationSink {\n", "impl Clone for SerializationSink {\n    fn clone(&self) -> Self { SerializationSink { shared_state: self.shared_state.clone(), data: Mutex::new(SerializationSinkInner { buffer: Vec::new(), addr: 0 }), page_tag: self.page_tag } }\n}\n\n#[derive(Debug)]\npub struct SerializationSink {\n", 1)])
