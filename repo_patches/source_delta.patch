From 6b6aedb53627ce976706c20a20c3b30103a2cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 1/7] fix: StringRef::to_string drops components after a
 leading reference

The fast path for single-reference strings compared the terminator's offset
relative to the string's start with an absolute position, so a composite string
at address P that starts with a reference and has exactly P more bytes was
decoded as just the reference.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 2127523615e85d0362344473c2c518eb99aa7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 2/7] fix: accept vertical tab in event ids, as the documented
 grammar does

---
 decodeme/src/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..da1da86 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -93,9 +93,11 @@ impl<'a> Parser<'a> {
 
         self.pos = end;
 
+        // The grammar allows everything in `[[:space:]]`, which includes vertical
+        // tab (`is_ascii_whitespace` does not).
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            .filter(|x| !x.is_ascii_whitespace() && **x != b'\x0B')
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0


From 38429f89527713a0486bbc89df10ff6b1f6bfdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 3/7] fix: show the hashing column whenever an item has hashing
 time

---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..e97273d 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 12d81c0d81e3422b4525e0f27e52a2576babdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 4/7] fix: mmview prints profiles that have only integer events

---
 mmview/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..bb0e161 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,7 +18,14 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
+    if data.num_events() > 0 {
+        // Integer events have no start time, so there might not be any.
+        let global_start_time = data
+            .iter()
+            .filter_map(|e| e.start())
+            .min()
+            .unwrap_or(SystemTime::UNIX_EPOCH);
+
         for event in data.iter() {
             if let Some(thread_id) = opt.thread_id {
                 if event.thread_id != thread_id {
-- 
2.43.0


From 1a2cf67f8f93dda4964ff06746569ac0873bb7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 5/7] fix: write the command line into the metadata as valid
 JSON

---
 measureme/src/profiler.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..43ce290 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -54,7 +54,7 @@ impl Profiler {
 
         let mut args = String::new();
         for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+            push_json_escaped(&mut args, &arg);
             args.push(' ');
         }
 
@@ -227,6 +227,19 @@ impl<'a> TimingGuard<'a> {
     }
 }
 
+/// Appends `s` to `out` in the form it takes within a JSON string literal.
+fn push_json_escaped(out: &mut String, s: &str) {
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            // JSON does not allow control characters in string literals.
+            '\u{0}'..='\u{1f}' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => out.push(c),
+        }
+    }
+}
+
 // Make sure that `Profiler` can be used in a multithreaded context
 fn _assert_bounds() {
     assert_bounds_inner(&Profiler::new(""));
-- 
2.43.0


From 77b98889972760e66bce4ae3454af07035a5ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:45 +0000
Subject: [PATCH 6/7] fix: keep addresses right after a panicking write_atomic
 callback

---
 measureme/src/serialization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..3c48c90 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -324,10 +324,13 @@ impl SerializationSink {
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
         buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
 
+        // The bytes are part of the stream from here on, even if `write`
+        // panics, so later writes must not get addresses within them.
         *addr += num_bytes as u64;
 
+        write(&mut buffer[buf_start..buf_end]);
+
         Addr(curr_addr)
     }
 
-- 
2.43.0


From bd619fdfa317935992fe4021e28e959670c62d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 7/7] fix: summarize diff reads summaries saved as .json files

---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index e97273d..0b6ca93 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |ext| ext == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0

