From b12c34436e3b6b3a148e4e39b9d6b793256be63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 01/14] fix: decodeme: do not mistake longer strings for a
 single reference

`terminator_pos` is relative to the start of the string but was compared with
an absolute position. The fast path was therefore missed by all strings but
those that start with a reference and have their terminator 9 bytes plus their
own address further on, of which everything but the first component was lost.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 8050188547eb99e8a2e5ca71253759029beebcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 02/14] fix: decodeme: accept vertical tab in event ids as the
 grammar does

The grammar in measureme::event_id allows [:space:], which includes vertical
tab. Such event ids were decoded as <parse error>.
---
 decodeme/src/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..bf80781 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -95,7 +95,9 @@ impl<'a> Parser<'a> {
 
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            // `is_ascii_whitespace()` does not include vertical tab but the
+            // `[:space:]` of the event id grammar does.
+            .filter(|x| !x.is_ascii_whitespace() && **x != b'\x0B')
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0


From 029b8abf250c37846c1da4000c49dcbebedf3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/14] fix: measureme: write valid session metadata for any
 command line

The arguments were escaped with escape_default(), whose \' and \u{..} are not
JSON, so that a profile recorded with an apostrophe or a non-ASCII character on
the command line could not be loaded. An argument that is not valid Unicode made
the creation of the profiler panic.
---
 measureme/src/profiler.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..7e2ca8f 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -53,8 +53,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+        for arg in std::env::args_os() {
+            push_json_escaped(&mut args, &arg.to_string_lossy());
             args.push(' ');
         }
 
@@ -227,6 +227,17 @@ impl<'a> TimingGuard<'a> {
     }
 }
 
+/// Appends `s` to `out`, escaped for use inside of a JSON string literal.
+fn push_json_escaped(out: &mut String, s: &str) {
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => out.extend(['\\', c]),
+            '\0'..='\x1F' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => out.push(c),
+        }
+    }
+}
+
 // Make sure that `Profiler` can be used in a multithreaded context
 fn _assert_bounds() {
     assert_bounds_inner(&Profiler::new(""));
-- 
2.43.0


From 95854f0444bfb883d6bcd13c513812b112ca97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 04/14] fix: summarize omitted the incremental result hashing
 column

The loop that looks for data to show stopped as soon as the first three
optional columns were found to have some, without having looked for
incremental result hashing time in the remaining items.
---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..e97273d 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From 60f59c0f4ad8d5605ee6ce85209bf4dba650a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 05/14] fix: summarize diff did not accept saved JSON analyses

Path::ends_with compares whole path components, so that only a file
called exactly "json" was read as a saved analysis.
---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index e97273d..3980d06 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().is_some_and(|e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From 52ce6e85b7329ad67a4b4ba5c9bc1599243eeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 06/14] fix: mmview printed nothing for profiles of integer
 events only

Such a profile has no earliest time stamp, which was taken for a
profile without events.
---
 mmview/src/main.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..cae28c5 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,17 +18,25 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
-        for event in data.iter() {
-            if let Some(thread_id) = opt.thread_id {
-                if event.thread_id != thread_id {
-                    continue;
-                }
+    if data.num_events() == 0 {
+        eprintln!("No events.");
+        return Ok(());
+    }
+
+    // Integer events have no time, so there is not necessarily any start time.
+    let global_start_time = data
+        .iter()
+        .filter_map(|e| e.start())
+        .min()
+        .unwrap_or(SystemTime::UNIX_EPOCH);
+
+    for event in data.iter() {
+        if let Some(thread_id) = opt.thread_id {
+            if event.thread_id != thread_id {
+                continue;
             }
-            print_event(&data.to_full_event(&event), global_start_time);
         }
-    } else {
-        eprintln!("No events.");
+        print_event(&data.to_full_event(&event), global_start_time);
     }
 
     Ok(())
-- 
2.43.0


From bf99c7ed353373c3ada41ba26f523a5e1c1e9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 07/14] fix: mmedit refused profiles of the current file format

Version 9 changed the events and the string table, but not the pages
which truncating works on.
---
 mmedit/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..e33b61b 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -1,6 +1,8 @@
 use std::{convert::TryInto, error::Error, path::PathBuf};
 
-use decodeme::{read_file_header, PageTag, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL};
+use decodeme::{
+    read_file_header, PageTag, CURRENT_FILE_FORMAT_VERSION, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL,
+};
 
 use clap::Parser;
 
@@ -19,7 +21,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From eb7d5a113e1403ed0ad4b66f0ee3d1179f4e6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 08/14] fix: tools reported success when the end of their
 output file could not be written

BufWriter ignores errors when it is dropped, so an error that occurred while
writing the last buffer was lost. Flush explicitly.
---
 crox/src/main.rs           | 3 ++-
 flamegraph/src/main.rs     | 7 ++++---
 stack_collapse/src/main.rs | 1 +
 summarize/src/main.rs      | 7 ++++---
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..2dbdcd9 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -212,6 +212,7 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
     }
 
     seq.end()?;
+    serializer.into_inner().flush()?;
 
     Ok(())
 }
diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index 7e9a236..552b8d4 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -1,6 +1,6 @@
 use std::error::Error;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use analyzeme::{collapse_stacks, ProfilingData};
@@ -22,18 +22,19 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
         .collect::<Vec<_>>();
 
-    let file = BufWriter::new(File::create("rustc.svg")?);
+    let mut file = BufWriter::new(File::create("rustc.svg")?);
     let mut flamegraph_options = FlamegraphOptions::default();
 
     from_lines(
         &mut flamegraph_options,
         recorded_stacks.iter().map(|s| s.as_ref()),
-        file,
+        &mut file,
     )
     .expect(
         "unable to generate a flamegraph \
          from the collapsed stack data",
     );
+    file.flush()?;
 
     Ok(())
 }
diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..3c953bb 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -24,6 +24,7 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
     for (unique_stack, count) in recorded_stacks {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
+    file.flush()?;
 
     Ok(())
 }
diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 3980d06..8110347 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,9 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From bcc3b1661bad69bd43133a65c1c21581fec90757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 09/14] fix: summarize reported success when its tables could
 not be printed

Table::printstd ignores all errors; print_tty returns them.
---
 summarize/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 8110347..4533da7 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -141,7 +141,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -161,7 +161,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
@@ -289,7 +289,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ])));
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -311,7 +311,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
-- 
2.43.0


From de3b41a4570121ab0c51f3ddc5944204cff19aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 10/14] fix: pages written after a failed write made the
 profile unreadable

A write that fails in the middle of a page leaves a torn page behind. If
later writes succeeded (space was freed, or the error was temporary), for
example while unwinding drops the other sinks, their pages were taken for
the rest of the torn page, so that the profile held garbage instead of a
prefix. Do not write anything after the first failure.
---
 measureme/src/serialization.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..27e7d44 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -31,7 +31,7 @@ use std::convert::TryInto;
 use std::error::Error;
 use std::fmt::Debug;
 use std::fs;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::sync::Arc;
 
 const MAX_PAGE_SIZE: usize = 256 * 1024;
@@ -118,15 +118,26 @@ impl SerializationSinkBuilder {
 enum BackingStorage {
     File(fs::File),
     Memory(Vec<u8>),
+    /// Writing to the file has failed, possibly in the middle of a page.
+    /// Anything written after that would be taken for the rest of that page.
+    Failed,
 }
 
 impl Write for BackingStorage {
     #[inline]
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        match *self {
+        let result = match *self {
             BackingStorage::File(ref mut file) => file.write(buf),
             BackingStorage::Memory(ref mut vec) => vec.write(buf),
+            BackingStorage::Failed => Err(ErrorKind::Other.into()),
+        };
+
+        match result {
+            Err(ref e) if e.kind() != ErrorKind::Interrupted => *self = BackingStorage::Failed,
+            _ => {}
         }
+
+        result
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -136,6 +147,7 @@ impl Write for BackingStorage {
                 // Nothing to do
                 Ok(())
             }
+            BackingStorage::Failed => Err(ErrorKind::Other.into()),
         }
     }
 }
@@ -185,7 +197,7 @@ impl SharedState {
     fn copy_bytes_with_page_tag(&self, page_tag: PageTag) -> Vec<u8> {
         let data = self.0.lock();
         let data = match *data {
-            BackingStorage::File(_) => panic!(),
+            BackingStorage::File(_) | BackingStorage::Failed => panic!(),
             BackingStorage::Memory(ref data) => data,
         };
 
-- 
2.43.0


From b48fd95e6f2a7c0fb96b1d8903db41d935745cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 11/14] fix: summarize diff --json could overwrite the analyses
 it compares

---
 summarize/src/main.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 4533da7..504ac28 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -96,6 +96,18 @@ fn aggregate(opt: AggregateOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
 }
 
 fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
+    if opt.json {
+        // The output is named after `change`. With saved analyses as inputs, that may be one of them.
+        if let Ok(output) = opt.change.with_extension("json").canonicalize() {
+            if [&opt.base, &opt.change]
+                .iter()
+                .any(|input| input.canonicalize().is_ok_and(|input| input == output))
+            {
+                return Err(format!("{} would be overwritten", output.display()).into());
+            }
+        }
+    }
+
     let base = process_results(&opt.base)?;
     let change = process_results(&opt.change)?;
 
-- 
2.43.0


From 77c46c3c4088d1f563ab6c0a2d925c0143fd835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 12/14] fix: keep addresses right after a write callback
 panicked

write_atomic grew the buffer before calling the callback but advanced the
sink's address only afterwards. If the callback panicked, all later
addresses of the sink were too low and referred to other data.
---
 measureme/src/serialization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 27e7d44..460b52c 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -336,10 +336,13 @@ impl SerializationSink {
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
         buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
 
+        // The bytes are part of the stream from here on, even if `write`
+        // panics, so `addr` has to account for them already.
         *addr += num_bytes as u64;
 
+        write(&mut buffer[buf_start..buf_end]);
+
         Addr(curr_addr)
     }
 
-- 
2.43.0


From 24a83f5dca383e0b4a301368928792c7629a1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 13/14] fix: report why perf_event_open failed

perf_event_open returns -1 and sets errno; negating the return value
always reported EPERM, whatever the cause was.
---
 measureme/src/counters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measureme/src/counters.rs b/measureme/src/counters.rs
index 18d5e63..2470a2c 100644
--- a/measureme/src/counters.rs
+++ b/measureme/src/counters.rs
@@ -373,7 +373,7 @@ mod hw {
                 let fd =
                     perf_event_open(&mut attrs, pid, cpu, group_fd, PERF_FLAG_FD_CLOEXEC.into());
                 if fd < 0 {
-                    Err(std::io::Error::from_raw_os_error(-fd))
+                    Err(std::io::Error::last_os_error())
                 } else {
                     Ok(fs::File::from_raw_fd(fd))
                 }
-- 
2.43.0


From a4b94325c3f6ed617c75a7fd00155791eeb3674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 14/14] fix: do not call old file versions too new

Files of a version older than the supported ones were refused with the
advice to upgrade the tools.
---
 analyzeme/src/profiling_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 08d1a89..51b339e 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -76,7 +76,7 @@ impl ProfilingData {
                     )
                 } else {
                     format!(
-                        "File version {} is too new for this version of the measureme tool suite. Try upgrading the tool suite to the latest version.",
+                        "File version {} is too old for this version of the measureme tool suite. Try using an older version of the tool suite.",
                         unsupported_version
                     )
                 };
-- 
2.43.0

