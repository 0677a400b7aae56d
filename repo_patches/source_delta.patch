From 5b247edec192463300b4d2ff8663287fd5fdf13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 01/13] fix: single-reference shortcut of StringRef::to_string
 compares a relative position

terminator_pos is relative to the start of the string, so comparing it with
pos + STRING_REF_ENCODED_SIZE made the shortcut take a longer string whose
terminator happens to lie there for a lone reference and drop its tail.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 9747c991101e0635c9ac5ffad206dd53e848e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 02/13] fix: write valid JSON metadata for every command line

escape_default produces Rust escapes (\\' and \\u{..}) that are not valid JSON,
and std::env::args panics on arguments that are not valid Unicode.
---
 measureme/src/profiler.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..4c92f5a 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -53,8 +53,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+        for arg in std::env::args_os() {
+            push_json_escaped(&mut args, &arg.to_string_lossy());
             args.push(' ');
         }
 
@@ -190,6 +190,18 @@ pub struct DetachedTiming {
     start_count: u64,
 }
 
+/// Appends `text` to `output`, escaped for use within a JSON string literal.
+fn push_json_escaped(output: &mut String, text: &str) {
+    for c in text.chars() {
+        match c {
+            '"' => output.push_str("\\\""),
+            '\\' => output.push_str("\\\\"),
+            c if c < ' ' => output.push_str(&format!("\\u{:04x}", c as u32)),
+            c => output.push(c),
+        }
+    }
+}
+
 /// When dropped, this `TimingGuard` will record an "end" event in the
 /// `Profiler` it was created by.
 #[must_use]
-- 
2.43.0


From 7843a915c576d2b9aad973151ba68bdfb4314767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 03/13] fix: recognise JSON result files by their extension in
 summarize diff

Path::ends_with compares whole path components, so no file was ever read as JSON.
---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..b724b86 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From a73e47afe216dbda0c8f1cd00dffd71c4a857448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 04/13] fix: keep looking for hashing times in summarize

The scan for optional columns stopped before an item with a non-zero hashing
time was seen, which hid that column.
---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index b724b86..09a5955 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 101726749b75238efbf0d46940110e8c3a1298e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 05/13] fix: report write errors of summarize's JSON output

Dropping a BufWriter discards errors of the final flush.
---
 summarize/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 09a5955..51d3f13 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,9 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From ad47b9c7369ff57dcfe9aeb5afbbb800f3c6001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 06/13] fix: report write errors of stack_collapse's output

Dropping a BufWriter discards errors of the final flush.
---
 stack_collapse/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..3c953bb 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -24,6 +24,7 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
     for (unique_stack, count) in recorded_stacks {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
+    file.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 55e114fd40a6892427a99d36246d4b14ae34313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 07/13] fix: report write errors of flamegraph's output

Dropping a BufWriter discards errors of the final flush.
---
 flamegraph/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index 7e9a236..552b8d4 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -1,6 +1,6 @@
 use std::error::Error;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use analyzeme::{collapse_stacks, ProfilingData};
@@ -22,18 +22,19 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
         .collect::<Vec<_>>();
 
-    let file = BufWriter::new(File::create("rustc.svg")?);
+    let mut file = BufWriter::new(File::create("rustc.svg")?);
     let mut flamegraph_options = FlamegraphOptions::default();
 
     from_lines(
         &mut flamegraph_options,
         recorded_stacks.iter().map(|s| s.as_ref()),
-        file,
+        &mut file,
     )
     .expect(
         "unable to generate a flamegraph \
          from the collapsed stack data",
     );
+    file.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 5008d6ecb0454218eb28c8211ef182c36ce0877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 08/13] fix: report write errors of crox's output

Dropping a BufWriter discards errors of the final flush.
---
 crox/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..2dbdcd9 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -212,6 +212,7 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
     }
 
     seq.end()?;
+    serializer.into_inner().flush()?;
 
     Ok(())
 }
-- 
2.43.0


From b7431603fd92ff0f8e98288804080cb4a649ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 09/13] fix: let mmedit truncate files of the current format
 version

The container layout did not change between versions 8 and 9.
---
 mmedit/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..e33b61b 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -1,6 +1,8 @@
 use std::{convert::TryInto, error::Error, path::PathBuf};
 
-use decodeme::{read_file_header, PageTag, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL};
+use decodeme::{
+    read_file_header, PageTag, CURRENT_FILE_FORMAT_VERSION, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL,
+};
 
 use clap::Parser;
 
@@ -19,7 +21,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From 75d4e099a16d616ddcf73484c2becbd95434b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 10/13] fix: report the real cause when perf_event_open fails

The system call wrapper returns -1 and sets errno, so -fd was always EPERM.
---
 measureme/src/counters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..2470a2c 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -373,7 +373,7 @@ mod hw {
                 let fd =
                     perf_event_open(&mut attrs, pid, cpu, group_fd, PERF_FLAG_FD_CLOEXEC.into());
                 if fd < 0 {
-                    Err(std::io::Error::from_raw_os_error(-fd))
+                    Err(std::io::Error::last_os_error())
                 } else {
                     Ok(fs::File::from_raw_fd(fd))
                 }
-- 
2.43.0


From 592324416067d1b39033b8a948ea87cf4fa75f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 11/13] fix: call unsupported old file versions too old

---
 analyzeme/src/profiling_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 08d1a89..51b339e 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -76,7 +76,7 @@ impl ProfilingData {
                     )
                 } else {
                     format!(
-                        "File version {} is too new for this version of the measureme tool suite. Try upgrading the tool suite to the latest version.",
+                        "File version {} is too old for this version of the measureme tool suite. Try using an older version of the tool suite.",
                         unsupported_version
                     )
                 };
-- 
2.43.0


From bc5fd6d8907fd3e31fcc34d7586aa7d23da760e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 12/13] fix: do not panic on unterminated strings in
 StringRef::to_string

write_to_string yields the invalid marker for them.
---
 decodeme/src/stringtable.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index 9476994..119a92d 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -61,7 +61,15 @@ impl<'st> StringRef<'st> {
         // Find the first 0xFF byte which which is either the sequence
         // terminator or a byte in the middle of string id. Use `memchr` which
         // is super fast.
-        let terminator_pos = memchr(TERMINATOR, slice_to_search).unwrap();
+        let terminator_pos = match memchr(TERMINATOR, slice_to_search) {
+            Some(terminator_pos) => terminator_pos,
+            None => {
+                // Unterminated data is left to the full decoder.
+                let mut output = String::new();
+                self.write_to_string(&mut output);
+                return Cow::from(output);
+            }
+        };
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-- 
2.43.0


From 77b85caa5c98a2c6bb843ef7526ba12805647a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 13/13] fix: show the events of a profile without timestamps in
 mmview

---
 mmview/src/main.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..37ed7e1 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,17 +18,26 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
-        for event in data.iter() {
-            if let Some(thread_id) = opt.thread_id {
-                if event.thread_id != thread_id {
-                    continue;
-                }
+    if data.num_events() == 0 {
+        eprintln!("No events.");
+        return Ok(());
+    }
+
+    // Integer events carry no timestamp, so there might not be any start time
+    // even if there are events. It is not used for printing these events.
+    let global_start_time = data
+        .iter()
+        .filter_map(|e| e.start())
+        .min()
+        .unwrap_or(SystemTime::UNIX_EPOCH);
+
+    for event in data.iter() {
+        if let Some(thread_id) = opt.thread_id {
+            if event.thread_id != thread_id {
+                continue;
             }
-            print_event(&data.to_full_event(&event), global_start_time);
         }
-    } else {
-        eprintln!("No events.");
+        print_event(&data.to_full_event(&event), global_start_time);
     }
 
     Ok(())
-- 
2.43.0

