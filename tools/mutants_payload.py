EPF = "decodeme/src/event_payload.rs"
M("c21-strict", "C21", EPF, "self_start <= other_start && other_end <= self_end", "self_start <= other_start && other_end < self_end", "bad")
M("c21-inst-strict", "C21", EPF, "self_start <= other_t && other_t <= self_end", "self_start <= other_t && other_t < self_end", "bad")
M("c21-swap", "C21", EPF, "self_start <= other_start && other_end <= self_end", "other_start >= self_start && !(other_end > self_end)", "ok")
M("c21-int", "C21", EPF, "                EventPayload::Integer(_) => false,\n            },", "                EventPayload::Integer(_) => true,\n            },", "bad")
M("c21-tsend", "C21", EPF, "t >= start && t < end", "t >= start && t <= end", "bad")
M("c21-isinst", "C21", EPF, "matches!(self, &Self::Timestamp(Timestamp::Instant(_)))", "matches!(self, &Self::Timestamp(_))", "bad")
M("c21-end", "C21", EPF, "            Timestamp::Interval { end, .. } => end,", "            Timestamp::Interval { start, .. } => start,", "bad")
M("c21-dur", "C21", EPF, "            end.duration_since(start).ok()", "            Some(end.duration_since(start).unwrap_or_default())", "bad")
M("c21-dur-ok", "C21", EPF, "            end.duration_since(start).ok()", "            match end.duration_since(start) { Ok(d) => Some(d), Err(_) => None }", "ok")
M("c21-lw-start", "C21", "decodeme/src/lightweight_event.rs", "self.payload.timestamp().map(|t| t.start())", "self.payload.timestamp().and_then(|t| if t.is_instant() { None } else { Some(t.start()) })", "bad")
M("c21-ev-swap", "C21", "decodeme/src/event.rs", "self.payload.contains(&other.payload)", "other.payload.contains(&self.payload)", "bad")
M("c21-ev-thread", "C21", "decodeme/src/event.rs", "self.payload.contains(&other.payload)", "self.thread_id == other.thread_id && self.payload.contains(&other.payload)", "bad")
