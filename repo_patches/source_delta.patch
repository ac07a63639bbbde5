From d7fa9dae064a6f030850439990261a9932da31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 01/76] fix: pop of a sharded cache returns an entry whenever
 there is one

The sync cache indexed all shards with an index into the non-empty ones, the
async cache looked at one random shard; both returned None while other shards
held entries.
---
 common/cache/src/sharded_async_cache.rs | 12 ++++++++++--
 common/cache/src/sharded_sync_cache.rs  | 17 ++++-------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..97caa86 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,16 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        // Start at a random shard, and go on to the next ones if it is empty.
+        let shard_len = self.shard.len();
+        let start = rand::thread_rng().next_u64() as usize % shard_len;
+        for i in 0..shard_len {
+            let item = self.shard[(start + i) % shard_len].lock().await.pop();
+            if item.is_some() {
+                return item;
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..0e75451 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -84,19 +84,10 @@ where
     }
 
     fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let none_empty_shard = self
-            .shard
-            .iter()
-            .filter(|s| s.get_usage().ne(&0))
-            .collect::<Vec<_>>();
-
-        if none_empty_shard.is_empty() {
-            None
-        } else {
-            let shard_len = none_empty_shard.len();
-            let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
-        }
+        // Start at a random shard, and go on to the next ones if it is empty.
+        let shard_len = self.shard.len();
+        let start = rand::thread_rng().next_u64() as usize % shard_len;
+        (0..shard_len).find_map(|i| self.shard[(start + i) % shard_len].pop())
     }
 
     fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From 69e2fca3070f8f1a6386f15e8dfb3ea842d21eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 02/76] fix: capacity of an unbounded sharded cache does not
 overflow

---
 common/cache/src/sharded_sync_cache.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index 0e75451..0128623 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -100,7 +100,11 @@ where
     }
 
     fn get_capacity(&self) -> usize {
-        self.shard.iter().map(|a| a.get_capacity()).sum()
+        // The shards of an unbounded cache have a capacity of usize::MAX each.
+        self.shard
+            .iter()
+            .map(|a| a.get_capacity())
+            .fold(0, usize::saturating_add)
     }
 
     fn get_usage(&self) -> usize {
-- 
2.43.0


From d8c5fe9a3a70b6d962022b2e76d11b8034806114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 03/76] fix: refilling a rate bucket saturates instead of
 overflowing

---
 common/limiter_bucket/src/rate_bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..0ad6001 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,9 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical
+                .balance
+                .saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From 7e95026aebf277dca3eb4ffe51c275b23b61ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 04/76] fix: a rate bucket with interval 0 does not divide by
 zero

---
 common/limiter_bucket/src/rate_bucket.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 0ad6001..1072e77 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -386,6 +386,10 @@ fn calculate_drain(
         return None;
     }
 
+    // The interval of a tenant's limiter config is not validated, and the
+    // resolution of the bucket is one millisecond.
+    let interval = interval.max(chrono::Duration::milliseconds(1));
+
     // Time elapsed in milliseconds since the last deadline.
     let millis = interval.num_milliseconds();
     let since = now.signed_duration_since(deadline).num_milliseconds();
-- 
2.43.0


From 5e091f9de771830baa79957c32cf1d852da19f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 05/76] fix: reloading a small BloomFilter keeps its mask

---
 common/utils/src/bloom_filter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..e3c5e14 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,7 +35,9 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
+        // Not `pow2()`, which is at least 8: that would change the mask of a
+        // filter with less than 8 bytes, and lose what was inserted.
+        let l = (b.len() as u64).next_power_of_two();
         if l != b.len() as u64 {
             b.resize(l as usize, 0);
         }
-- 
2.43.0


From 6c8700f9ec7c0e2a87b3ae7242a32e8fc4585be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 06/76] fix: accept the supported TSM meta compression
 algorithms in the config check

---
 config/src/tskv/storage_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/storage_config.rs b/config/src/tskv/storage_config.rs
index 8162767..24b0a15 100644
--- a/config/src/tskv/storage_config.rs
+++ b/config/src/tskv/storage_config.rs
@@ -233,8 +233,8 @@ impl CheckConfig for StorageConfig {
         }
 
         if self.tsm_meta_compress != "zstd"
-            || self.tsm_meta_compress != "snappy"
-            || self.tsm_meta_compress != "null"
+            && self.tsm_meta_compress != "snappy"
+            && self.tsm_meta_compress != "null"
         {
             ret.add_error(CheckConfigItemResult {
                 config: config_name,
-- 
2.43.0


From c8fe9bacb4c289dd29d4037f90e103b4a23d7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 07/76] fix: report the TLS errors found by the config check

---
 config/src/tskv/security_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/security_config.rs b/config/src/tskv/security_config.rs
index 7a71dd9..e63389e 100644
--- a/config/src/tskv/security_config.rs
+++ b/config/src/tskv/security_config.rs
@@ -21,9 +21,9 @@ impl CheckConfig for SecurityConfig {
         }
 
         if ret.is_empty() {
-            Some(ret)
-        } else {
             None
+        } else {
+            Some(ret)
         }
     }
 }
-- 
2.43.0


From a49536d20772befc32185a2f832ed9901d49cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 08/76] fix: U64Average divides by the number of values

---
 common/metrics/src/average.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 85cb3e1..43c02df 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -22,7 +22,7 @@ impl U64Average {
         let total = self.total.load(Ordering::Relaxed);
 
         self.clear();
-        total / (count + 1)
+        total.checked_div(count).unwrap_or(0)
     }
 
     fn clear(&self) {
-- 
2.43.0


From 32bc0cd189446f9ec6a7bec430e84f427d80136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 09/76] fix: an error response with quotes in its message is
 still JSON

---
 common/http_protocol/src/response.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/common/http_protocol/src/response.rs b/common/http_protocol/src/response.rs
index 36234a2..68f2f98 100644
--- a/common/http_protocol/src/response.rs
+++ b/common/http_protocol/src/response.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 
 use derive_traits::ErrorCode;
 pub use reqwest::Response;
@@ -34,11 +34,32 @@ impl Display for ErrorResponse {
         write!(
             f,
             "{{\"error_code\": \"{}\", \"error_message\": \"{}\"}}",
-            self.error_code, self.error_message
+            JsonStr(&self.error_code),
+            JsonStr(&self.error_message)
         )
     }
 }
 
+/// Displays the content of a JSON string, escaped.
+struct JsonStr<'a>(&'a str);
+
+impl Display for JsonStr<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        for c in self.0.chars() {
+            match c {
+                '"' => f.write_str("\\\"")?,
+                '\\' => f.write_str("\\\\")?,
+                '\n' => f.write_str("\\n")?,
+                '\r' => f.write_str("\\r")?,
+                '\t' => f.write_str("\\t")?,
+                c if c < ' ' => write!(f, "\\u{:04x}", c as u32)?,
+                c => f.write_char(c)?,
+            }
+        }
+        Ok(())
+    }
+}
+
 impl ErrorCode for ErrorResponse {
     fn code(&self) -> &'static str {
         Box::leak(self.error_code.clone().into_boxed_str())
-- 
2.43.0


From f4f7e8fe97f8c1cf63ad7b358657cfd2b2fe9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 10/76] fix: byte sizes that have no exact short form are
 printed in bytes

---
 common/utils/src/byte_nums.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/utils/src/byte_nums.rs b/common/utils/src/byte_nums.rs
index c65970d..e1ee9ec 100644
--- a/common/utils/src/byte_nums.rs
+++ b/common/utils/src/byte_nums.rs
@@ -21,9 +21,14 @@ impl CnosByteNumber {
     }
 
     pub fn format_bytes(bytes: u64) -> String {
-        Byte::from_u64(bytes)
+        let adjusted = Byte::from_u64(bytes)
             .get_appropriate_unit(UnitType::Both)
-            .to_string()
+            .to_string();
+        // The adjusted value is an f64, too short for some of the large numbers.
+        match Self::parse_bytes(&adjusted) {
+            Ok(n) if n == bytes => adjusted,
+            _ => format!("{bytes} B"),
+        }
     }
     pub fn parse_bytes(s: &str) -> Result<u64, ParseError> {
         let mut str = s.to_string();
-- 
2.43.0


From 20a6c85bc1b84b3f3504d198cacb6d215720075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 11/76] fix: the total of a histogram wraps instead of
 overflowing

---
 common/metrics/src/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/metrics/src/histogram.rs b/common/metrics/src/histogram.rs
index 703e03c..1a662ce 100644
--- a/common/metrics/src/histogram.rs
+++ b/common/metrics/src/histogram.rs
@@ -60,7 +60,7 @@ impl U64Histogram {
             .as_mut()
         {
             bucket.count = bucket.count.wrapping_add(count);
-            state.total = state.total.wrapping_add(value * count);
+            state.total = state.total.wrapping_add(value.wrapping_mul(count));
         }
     }
 }
-- 
2.43.0


From 3c360265560a2fd36e8aa2b4b99d5dfe76be334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 12/76] fix: reading an average and adding to it do not
 interleave

---
 common/metrics/src/average.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 43c02df..01ef495 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -1,34 +1,28 @@
-use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 
+use parking_lot::Mutex;
+
 use crate::metric_type::MetricType;
 use crate::metric_value::MetricValue;
 use crate::MetricRecorder;
 
 #[derive(Clone, Default, Debug)]
 pub struct U64Average {
-    count: Arc<AtomicU64>,
-    total: Arc<AtomicU64>,
+    /// The number of values added, and their sum.
+    state: Arc<Mutex<(u64, u64)>>,
 }
 
 impl U64Average {
     pub fn add(&self, value: u64) {
-        self.count.fetch_add(1, Ordering::Relaxed);
-        self.total.fetch_add(value, Ordering::Relaxed);
+        let mut state = self.state.lock();
+        state.0 += 1;
+        state.1 = state.1.wrapping_add(value);
     }
 
     pub fn average(&self) -> u64 {
-        let count = self.count.load(Ordering::Relaxed);
-        let total = self.total.load(Ordering::Relaxed);
-
-        self.clear();
+        let (count, total) = std::mem::take(&mut *self.state.lock());
         total.checked_div(count).unwrap_or(0)
     }
-
-    fn clear(&self) {
-        self.count.store(0, Ordering::Relaxed);
-        self.total.store(0, Ordering::Relaxed);
-    }
 }
 
 impl MetricRecorder for U64Average {
-- 
2.43.0


From eb47979ccfbd6e04807afd3d53c9c836dbf5930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 13/76] fix: decode every frame of an LZ4 body, not only the
 first

---
 common/http_protocol/src/encoding.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/common/http_protocol/src/encoding.rs b/common/http_protocol/src/encoding.rs
index d899b67..ae59d82 100644
--- a/common/http_protocol/src/encoding.rs
+++ b/common/http_protocol/src/encoding.rs
@@ -146,9 +146,16 @@ impl Encoding {
             Encoding::LZ4 => BUFFER.with(|buf| {
                 let buf = &mut *buf.borrow_mut();
                 buf.clear();
-                lz4_flex::frame::FrameDecoder::new(&bytes[..])
-                    .read_to_end(buf)
-                    .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+                // A decoder stops at the end of a frame, a body may have several.
+                let mut input = &bytes[..];
+                loop {
+                    lz4_flex::frame::FrameDecoder::new(&mut input)
+                        .read_to_end(buf)
+                        .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+                    if input.is_empty() {
+                        break;
+                    }
+                }
                 io::Result::Ok(Bytes::from(buf.clone()))
             })?,
             Encoding::Identity => bytes,
-- 
2.43.0


From 727dc257915dbaa23dac6b58309191f68100e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 14/76] fix: line protocol names that start with an escaped
 character

---
 common/protocol_parser/src/line_protocol/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 377d829..1791714 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -80,7 +80,8 @@ impl Parser {
                         continue;
                     }
 
-                    key_idx = (index, 0, false);
+                    next_escape = char == b'\\';
+                    key_idx = (index, 0, next_escape);
                     status = ParseStatus::Table;
                 }
 
@@ -88,7 +89,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
@@ -140,7 +142,8 @@ impl Parser {
                     if skip_space {
                         if char != b' ' {
                             skip_space = false;
-                            key_idx = (index, 0, false);
+                            next_escape = char == b'\\';
+                            key_idx = (index, 0, next_escape);
                             status = ParseStatus::FieldKey;
                         }
                         continue;
-- 
2.43.0


From e8753b3fbc87dce5466638159b37e44d1267353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 15/76] fix: a line protocol field without a value is an error,
 not a panic

---
 common/protocol_parser/src/line_protocol/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 1791714..fdb1efc 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -329,11 +329,11 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
 }
 
 fn parse_field_value(buf: &[u8], need_unescape: bool) -> Result<FieldValue> {
-    match buf[0] {
-        b't' | b'T' => parse_boolean_field(buf, true),
-        b'f' | b'F' => parse_boolean_field(buf, false),
-        b'"' => parse_string_field(buf, need_unescape),
-        b'+' | b'-' | b'0'..=b'9' => parse_numeric_field(buf),
+    match buf.first() {
+        Some(b't' | b'T') => parse_boolean_field(buf, true),
+        Some(b'f' | b'F') => parse_boolean_field(buf, false),
+        Some(b'"') => parse_string_field(buf, need_unescape),
+        Some(b'+' | b'-' | b'0'..=b'9') => parse_numeric_field(buf),
         _ => Err(Error::FieldValue {
             content: u8_slice_to_str_unchecked(buf).to_owned(),
         }),
-- 
2.43.0


From 0cf6e7b2b6f34904cb3f5271ee2522db72e90ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 16/76] fix: line protocol names with both an escaped and a
 plain '='

---
 .../src/line_protocol/parser.rs               | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index fdb1efc..1816aef 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -313,16 +313,24 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
         return Ok(Cow::Borrowed(u8_slice_to_str_unchecked(s)));
     }
     let mut ownd_bytes = Vec::with_capacity(s.len());
-    for (&v1, &v2) in s.iter().tuple_windows() {
-        if v2 == b',' || v2 == b' ' || v2 == b'=' {
-            if v1 != b'\\' {
-                return Err(Error::InvaildSyntax);
+    let mut escaped = false;
+    for &c in s {
+        if escaped {
+            // only these lose their backslash, any other is part of the name
+            if !matches!(c, b',' | b' ' | b'=') {
+                ownd_bytes.push(b'\\');
             }
-            continue;
+            ownd_bytes.push(c);
+            escaped = false;
+        } else if c == b'\\' {
+            escaped = true;
+        } else {
+            ownd_bytes.push(c);
         }
-        ownd_bytes.push(v1);
     }
-    ownd_bytes.push(s[s.len() - 1]);
+    if escaped {
+        ownd_bytes.push(b'\\');
+    }
     Ok(Cow::Owned(unsafe {
         String::from_utf8_unchecked(ownd_bytes)
     }))
-- 
2.43.0


From 5f1083f8cffea12bea74b4a4cb557b06db240ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 17/76] fix: line protocol lines without a timestamp may end in
 spaces

---
 common/protocol_parser/src/line_protocol/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 1816aef..cc60d15 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -197,7 +197,16 @@ impl Parser {
 
                 ParseStatus::FieldValue => {
                     if skip_space {
-                        if char != b' ' {
+                        if char == b'\r' || char == b'\n' {
+                            line.timestamp = self.default_time;
+                            line.sort_dedup_and_hash();
+                            lines.push(line);
+
+                            line = Line::default();
+                            skip_space = false;
+                            key_idx = (0, 0, false);
+                            status = ParseStatus::LineBegin;
+                        } else if char != b' ' {
                             skip_space = false;
                             key_idx = (index, 0, false);
                             status = ParseStatus::Timestamp;
-- 
2.43.0


From 94fba1b342d180d40a875520bc7292ff6133b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 18/76] fix: a bad timestamp is refused on the last line of a
 request too

---
 common/protocol_parser/src/line_protocol/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index cc60d15..44395ca 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -281,9 +281,8 @@ impl Parser {
             let timestamp = if key_idx.0 == 0 {
                 self.default_time
             } else {
-                let (timestamp, _) = atoi_simd::parse_until_invalid(&data_bytes[key_idx.0..])
-                    .map_err(|_| Error::Timestamp { pos: key_idx.0 })?;
-                timestamp
+                atoi_simd::parse(&data_bytes[key_idx.0..])
+                    .map_err(|_| Error::Timestamp { pos: key_idx.0 })?
             };
 
             line.timestamp = timestamp;
-- 
2.43.0


From 19ea0e09c0608648ec415437f2704e929f326abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 19/76] fix: the last field of a request is not dropped when
 its name or value is missing

---
 common/protocol_parser/src/line_protocol/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 44395ca..e3174c7 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -295,7 +295,7 @@ impl Parser {
                 return Err(Error::UnexpectedEnd { pos: val_idx.0 });
             }
 
-            if key_idx.1 > key_idx.0 && data_bytes.len() > val_idx.0 {
+            if !skip_space {
                 let key = escape(&data_bytes[key_idx.0..key_idx.1], key_idx.2)?;
                 let val = parse_field_value(&data_bytes[val_idx.0..], val_idx.2)?;
                 line.fields.push((key, val));
-- 
2.43.0


From 9964ac9f15647a67ab20d4526eced20815c9e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 20/76] fix: a column used as two kinds or types in one write
 is an error, not a panic

---
 common/models/src/mutable_batch.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/common/models/src/mutable_batch.rs b/common/models/src/mutable_batch.rs
index 908cc1c..9eb3867 100644
--- a/common/models/src/mutable_batch.rs
+++ b/common/models/src/mutable_batch.rs
@@ -37,12 +37,24 @@ impl<'a> MutableBatch<'a> {
             None => {
                 let column_idx = self.columns.len();
                 self.column_names.insert(name.to_string(), column_idx);
-                self.columns.push(Column::new(self.row_count, col_type)?);
+                self.columns
+                    .push(Column::new(self.row_count, col_type.clone())?);
                 column_idx
             }
         };
 
-        Ok(&mut self.columns[column_idx] as _)
+        let column = &mut self.columns[column_idx];
+        if column.column_type != col_type {
+            return Err(CommonSnafu {
+                msg: format!(
+                    "column '{}' is {:?}, not {:?}",
+                    name, column.column_type, col_type
+                ),
+            }
+            .build());
+        }
+
+        Ok(column)
     }
 
     pub fn finish(&mut self) {
-- 
2.43.0


From 7aa36f75678ed26266efa5bdb1903474fb9df696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 21/76] fix: OpenTSDB text with several lines, fractional
 values, any name; bad tags are refused

---
 common/protocol_parser/src/lib.rs             | 66 ++++++++++---------
 .../protocol_parser/src/open_tsdb/parser.rs   | 10 +--
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index fc58010..dedeb82 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -160,7 +160,7 @@ fn next_metric(buf: &str) -> Option<(&str, usize)> {
             }
         } else {
             // Measurement begin character
-            if c.is_alphanumeric() {
+            if !c.is_ascii_whitespace() {
                 exists_metric = true;
                 tok_begin = i;
             }
@@ -178,8 +178,32 @@ fn next_metric(buf: &str) -> Option<(&str, usize)> {
     }
 }
 
-fn is_tagset_character(c: char) -> bool {
-    c.is_alphanumeric() || c == '\\'
+/// The tag whose name is `buf[offsets[0]..offsets[1]]` and value `buf[offsets[2]..end]`.
+fn tag_of<'a>(
+    buf: &'a str,
+    offsets: &[usize; 3],
+    end: usize,
+) -> Result<(Cow<'a, str>, Cow<'a, str>)> {
+    if offsets[0] >= offsets[1] {
+        return Err(Error::Common {
+            content: format!(
+                "tag missing name in next_tag_set, buf : {}",
+                buf.get(0..30).unwrap_or(buf)
+            ),
+        });
+    }
+    if offsets[2] >= end {
+        return Err(Error::Common {
+            content: format!(
+                "tag missing value in next_tag_set, buf : {}",
+                buf.get(0..30).unwrap_or(buf)
+            ),
+        });
+    }
+    Ok((
+        Cow::Borrowed(&buf[offsets[0]..offsets[1]]),
+        Cow::Borrowed(&buf[offsets[2]..end]),
+    ))
 }
 
 fn next_tag_set(buf: &str) -> NextTagRes {
@@ -204,19 +228,10 @@ fn next_tag_set(buf: &str) -> NextTagRes {
         if exists_tag_set {
             if !escaped && c == '=' {
                 tok_offsets[1] = i;
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
                 tok_offsets[2] = i + 1;
             }
             if !escaped && c == ',' {
-                tag_set.push((
-                    Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-                    Cow::Borrowed(&buf[tok_offsets[2]..i]),
-                ));
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
+                tag_set.push(tag_of(buf, &tok_offsets, i)?);
                 tok_offsets[0] = i + 1;
             }
 
@@ -227,7 +242,7 @@ fn next_tag_set(buf: &str) -> NextTagRes {
             }
         } else {
             // TagSet begin character
-            if is_tagset_character(c) {
+            if !c.is_ascii_whitespace() {
                 exists_tag_set = true;
                 tok_offsets[0] = i;
             }
@@ -245,18 +260,7 @@ fn next_tag_set(buf: &str) -> NextTagRes {
                 tok_end -= 1;
             }
         }
-        if tok_offsets[0] == tok_offsets[1] {
-            return Err(Error::Common {
-                content: format!(
-                    "tag missing name in next_tag_set, buf : {}",
-                    buf.get(0..30).unwrap_or(buf)
-                ),
-            });
-        }
-        tag_set.push((
-            Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-            Cow::Borrowed(&buf[tok_offsets[2]..tok_end]),
-        ));
+        tag_set.push(tag_of(buf, &tok_offsets, tok_end)?);
         Ok(Some((tag_set, tok_end + 1)))
     } else {
         Ok(None)
@@ -266,16 +270,16 @@ fn next_tag_set(buf: &str) -> NextTagRes {
 fn next_value(buf: &str) -> Option<(&str, usize)> {
     let mut exists_timestamp = false;
     let (mut tok_begin, mut tok_end) = (0, buf.len());
-    for (i, c) in buf.chars().enumerate() {
+    for (i, c) in buf.char_indices() {
         if exists_timestamp {
-            // Timestamp end character
-            if !c.is_numeric() {
+            // Value end character
+            if c.is_ascii_whitespace() {
                 tok_end = i;
                 break;
             }
         } else {
-            // Timestamp begin character
-            if c == '-' || c.is_numeric() {
+            // Value begin character
+            if !c.is_ascii_whitespace() {
                 tok_begin = i;
                 exists_timestamp = true;
             }
diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index e1a2327..970b155 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -19,11 +19,11 @@ impl Parser {
 
     pub fn parse<'a>(&self, lines: &'a str) -> Result<Vec<Line<'a>>> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0_usize;
-        while let Some((mut line, offset)) = self.next_line(lines, pos)? {
-            line.sort_dedup_and_hash();
-            ret.push(line);
-            pos += offset;
+        for raw in lines.lines() {
+            if let Some((mut line, _)) = self.next_line(raw, 0)? {
+                line.sort_dedup_and_hash();
+                ret.push(line);
+            }
         }
         Ok(ret)
     }
-- 
2.43.0


From 71f2b00241e6b5c0498390644038203565771294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 22/76] fix: OpenTSDB over TCP: only finished lines are read,
 and exactly those are used up

---
 common/protocol_parser/src/open_tsdb/parser.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index 970b155..bb8a1e9 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -109,16 +109,15 @@ impl Parser {
 
     pub fn parse_tcp_opentsdb<'a>(&self, buf: &'a [u8]) -> Result<(Vec<Line<'a>>, usize)> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0;
-        let lines = std::str::from_utf8(buf).map_err(|e| Error::Common {
+        // The rest of a line that is not finished yet stays in the buffer.
+        let pos = buf.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
+        let lines = std::str::from_utf8(&buf[..pos]).map_err(|e| Error::Common {
             content: format!("Invalid Point: {}", e),
         })?;
-        let lines = lines.split("\r\n").collect::<Vec<&str>>();
-        for line_raw in lines {
+        for line_raw in lines.lines() {
             if let Some(mut line) = self.next_tcp_line(line_raw)? {
                 line.sort_dedup_and_hash();
                 ret.push(line);
-                pos += line_raw.len() + 2;
             }
         }
         Ok((ret, pos))
-- 
2.43.0


From adb4714e412e811a9aa4b02d315509d356885c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 23/76] fix: tag values of JSON logs keep their quotes and
 backslashes

---
 common/protocol_parser/src/json_protocol/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 1eb6f63..3b0d57c 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -505,7 +505,10 @@ pub fn parse_to_line<'a>(
     let mut fields = vec![];
     for (key, value) in value.get_fields() {
         if tag_columns.contains(&key.as_str()) {
-            let value = value.to_string().trim_matches('"').to_owned();
+            let value = match value {
+                serde_json::Value::String(value) => value.clone(),
+                value => value.to_string(),
+            };
             tags.push((Cow::Borrowed(key.as_str()), Cow::Owned(value)));
         } else if time_column.eq(key) {
             match value {
-- 
2.43.0


From 44bf26dbeaffaa2299223443f942916b681c541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 24/76] fix: a Loki timestamp out of range is an error

---
 common/protocol_parser/src/json_protocol/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 3b0d57c..9bfafd4 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -201,7 +201,10 @@ pub fn parse_protobuf_to_lokilog(req: Bytes) -> Result<Vec<JsonProtocol>> {
         );
         for entry in stream.entries {
             let ts = entry.timestamp.unwrap_or_default();
-            let timestamp: i64 = ts.seconds * 1_000_000_000 + ts.nanos as i64;
+            let timestamp = ts.seconds as i128 * 1_000_000_000 + ts.nanos as i128;
+            let timestamp = i64::try_from(timestamp).map_err(|_| Error::Common {
+                content: "Out of the time frame that can be saved".to_string(),
+            })?;
 
             fields.insert(
                 "time".to_string(),
-- 
2.43.0


From ab2de8dad51b2c51c5f918cbab77b4d57003f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 25/76] fix: a trace span's log does not carry fields of the
 spans before it

---
 common/protocol_parser/src/json_protocol/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 9bfafd4..94bd75c 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -225,10 +225,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
         })?;
 
     let mut logs = Vec::new();
-    let mut fields = BTreeMap::new();
     for resource_span in export_trace_req.resource_spans {
         let mut prefix = vec!["ResourceSpans/".to_string()];
-        fields.clear();
+        let mut fields = BTreeMap::new();
         if let Some(resource) = resource_span.resource {
             prefix.push("Resource/".to_string());
             for attribute in resource.attributes {
@@ -266,7 +265,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
             prefix.join("") + "schema_url",
             serde_json::Value::String(resource_span.schema_url),
         );
+        let resource_fields = fields;
         for scope_span in resource_span.scope_spans {
+            let mut fields = resource_fields.clone();
             prefix.push("ScopeSpans/".to_string());
             if let Some(scope) = scope_span.scope {
                 prefix.push("InstrumentationScope/".to_string());
@@ -305,7 +306,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                 prefix.join("") + "schema_url",
                 serde_json::Value::String(scope_span.schema_url),
             );
+            let scope_fields = fields;
             for span in scope_span.spans {
+                let mut fields = scope_fields.clone();
                 prefix.push("Span/".to_string());
                 fields.insert(
                     prefix.join("") + "trace_id",
@@ -483,7 +486,7 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                     prefix.join("") + "duration_nano",
                     serde_json::Value::Number(duration_nano.into()),
                 );
-                logs.push(fields.clone());
+                logs.push(fields);
                 prefix.pop();
             }
             prefix.pop();
-- 
2.43.0


From f1c8fc2fbe285107975ec66dd1e46ed7188f14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 26/76] fix: a trace span that ends before it starts does not
 panic

---
 common/protocol_parser/src/json_protocol/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 94bd75c..15f6e5c 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -481,7 +481,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                     );
                     prefix.pop();
                 }
-                let duration_nano = span.end_time_unix_nano - span.start_time_unix_nano;
+                let duration_nano = span
+                    .end_time_unix_nano
+                    .saturating_sub(span.start_time_unix_nano);
                 fields.insert(
                     prefix.join("") + "duration_nano",
                     serde_json::Value::Number(duration_nano.into()),
-- 
2.43.0


From 9bf94f50c43ee45ee2b37c5bafb83da107a8a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 27/76] fix: a page made from a sliced array keeps the array's
 own nulls

---
 tskv/src/tsm/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/tsm/page.rs b/tskv/src/tsm/page.rs
index 7e5dcda..08f090b 100644
--- a/tskv/src/tsm/page.rs
+++ b/tskv/src/tsm/page.rs
@@ -101,7 +101,7 @@ impl Page {
         let data_len = array.len() as u64;
         let bit_set_buffer = match array.nulls() {
             None => BooleanBuffer::new_set(data_len as usize).values().to_vec(),
-            Some(nulls) => nulls.buffer().to_vec(),
+            Some(nulls) => nulls.inner().sliced().to_vec(),
         };
         let mut buf = vec![];
         let statistics = match array.data_type() {
-- 
2.43.0


From 9ac672336da589b08eab81e1e425f69fa65d3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 28/76] fix: delta-decoding integers wraps as the encoding does

---
 tskv/src/tsm/codec/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tskv/src/tsm/codec/integer.rs b/tskv/src/tsm/codec/integer.rs
index 6a15871..6bdc2b4 100644
--- a/tskv/src/tsm/codec/integer.rs
+++ b/tskv/src/tsm/codec/integer.rs
@@ -223,7 +223,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     let mut buf: [u8; 8] = [0; 8];
     buf.copy_from_slice(&src[0..8]);
     let mut first_val = true;
-    let mut next = 0;
+    let mut next: i64 = 0;
     let mut iter = res.iter();
     let mut builder = Int64Builder::with_capacity(bit_set.len());
     for is_valid in bit_set.iter() {
@@ -240,7 +240,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
             continue;
         }
         if let Some(v) = iter.next() {
-            next += zig_zag_decode(*v);
+            next = next.wrapping_add(zig_zag_decode(*v));
             builder.append_value(next);
         }
     }
-- 
2.43.0


From 94331a27bfeb031a85baac4b827a6b0a0e2460fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 29/76] fix: a DELTATS column that starts with nulls keeps its
 first value

---
 tskv/src/tsm/codec/timestamp.rs | 39 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 8f463b2..4a010a5 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -215,7 +215,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
         }
         if i < src.len() {
             buf.copy_from_slice(&src[i..i + 8]);
-            prev += i64::from_be_bytes(buf);
+            prev = i64::wrapping_add(prev, i64::from_be_bytes(buf));
             builder.append_value(prev);
             i += 8;
         }
@@ -270,30 +270,29 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     buf.copy_from_slice(&src[1..9]);
     let mut next = i64::from_be_bytes(buf);
     let mut builder = Int64Builder::with_capacity(bit_set.len());
-    let mut idx = 0;
-    if bit_set.is_valid(idx) {
-        builder.append_value(next);
-    } else {
-        builder.append_null();
-    }
-    idx += 1;
     simple8b::decode(&src[9..], &mut res);
 
+    let mut is_first = true;
     let mut value_iter = res.into_iter();
-    while idx < bit_set.len() {
-        if bit_set.is_valid(idx) {
-            if let Some(value) = value_iter.next() {
-                next += if scaler > 1 {
-                    (value * scaler) as i64
-                } else {
-                    value as i64
-                };
-                builder.append_value(next);
-            }
-        } else {
+    for is_valid in bit_set.iter() {
+        if !is_valid {
             builder.append_null();
+            continue;
+        }
+        if is_first {
+            // the first value is stored raw
+            builder.append_value(next);
+            is_first = false;
+            continue;
+        }
+        if let Some(value) = value_iter.next() {
+            next = next.wrapping_add(if scaler > 1 {
+                (value * scaler) as i64
+            } else {
+                value as i64
+            });
+            builder.append_value(next);
         }
-        idx += 1;
     }
     Ok(Arc::new(builder.finish()))
 }
-- 
2.43.0


From 7e1496316c4e4552318cfc469fc899aebdee9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 30/76] fix: a write that loses the race to change a table's
 schema uses the schema that won

---
 tskv/src/schema/schemas.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 5527f06..4e14ac7 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -163,8 +163,9 @@ impl DBschemas {
                 .create_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::TableAlreadyExists { .. }) = res.as_ref() {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             } else {
                 res?;
             }
@@ -176,8 +177,9 @@ impl DBschemas {
                 .update_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::UpdateTableConflict { .. }) = &res {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             } else {
                 res?;
             }
-- 
2.43.0


From 3fb87f0615ab3ff2943173e0ec1a7511d457e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 31/76] fix: rows at the largest timestamp stay in the memcache

---
 tskv/src/mem_cache/series_data.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..7feb677 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -304,17 +304,11 @@ impl<'a> Iterator for SeriesDedupMergeSortIterator<'a> {
     type Item = RowDataRef<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut min_ts = i64::MAX;
-        for (_, data, _) in self.vec_pq.iter() {
-            if let Some(data) = data {
-                if min_ts > data.ts {
-                    min_ts = data.ts
-                }
-            }
-        }
-        if min_ts == i64::MAX {
-            return None;
-        }
+        let min_ts = self
+            .vec_pq
+            .iter()
+            .filter_map(|(_, data, _)| data.map(|row| row.ts))
+            .min()?;
 
         let mut result = RowDataRef {
             ts: min_ts,
-- 
2.43.0


From 46be1a03db18727872ecf472970cb88352b22a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 32/76] fix: rows of one batch with equal timestamps keep their
 order in the memcache

---
 tskv/src/mem_cache/row_data.rs    | 2 +-
 tskv/src/mem_cache/series_data.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..31a05dc 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -259,7 +259,7 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index 7feb677..ceefa35 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,9 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // of rows with the same timestamp the last one inserted is the newest
+                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
+                rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +71,7 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
-- 
2.43.0


From aad97511c32cdc0d0b327f5ae2cb2da41cbb3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 33/76] fix: time ranges at the largest timestamp, with gaps,
 or empty

---
 common/models/src/predicate/domain.rs | 36 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..f10c081 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -43,17 +43,21 @@ impl From<(StdBound<i64>, StdBound<i64>)> for TimeRange {
     // TODO: Using TimeRange { min_ts: Bound, max_ts: Bound }
     fn from(range: (StdBound<i64>, StdBound<i64>)) -> Self {
         let min_ts = match range.0 {
-            StdBound::Excluded(v) => v + 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MIN,
+            StdBound::Excluded(v) => v.checked_add(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MIN),
         };
         let max_ts = match range.1 {
-            StdBound::Excluded(v) => v - 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MAX,
+            StdBound::Excluded(v) => v.checked_sub(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MAX),
         };
 
-        TimeRange { min_ts, max_ts }
+        match (min_ts, max_ts) {
+            (Some(min_ts), Some(max_ts)) => TimeRange { min_ts, max_ts },
+            // Nothing is above the largest, or below the smallest timestamp.
+            _ => TimeRange::none(),
+        }
     }
 }
 
@@ -158,6 +162,7 @@ impl TimeRange {
             return Some(TimeRanges::new(vec![*self]));
         }
         let mut tmp_tr_min_ts = self.min_ts;
+        let mut all_excluded = false;
         let mut remained_ranges: Vec<TimeRange> = Vec::new();
         for (min_ts, max_ts) in time_ranges.ranges() {
             if min_ts == i64::MIN && max_ts == i64::MAX {
@@ -170,10 +175,17 @@ impl TimeRange {
                 if min_ts > tmp_tr_min_ts {
                     remained_ranges.push((tmp_tr_min_ts, min_ts - 1).into());
                 }
-                tmp_tr_min_ts = max_ts.checked_add(1).unwrap_or(max_ts);
+                match max_ts.checked_add(1) {
+                    Some(ts) => tmp_tr_min_ts = ts,
+                    None => {
+                        // Nothing remains above the largest timestamp.
+                        all_excluded = true;
+                        break;
+                    }
+                }
             }
         }
-        if tmp_tr_min_ts <= self.max_ts {
+        if !all_excluded && tmp_tr_min_ts <= self.max_ts {
             remained_ranges.push((tmp_tr_min_ts, self.max_ts).into());
         }
         if remained_ranges.is_empty() {
@@ -234,6 +246,9 @@ pub struct TimeRanges {
 
 impl TimeRanges {
     fn add_time_range(&mut self, time_range: TimeRange) {
+        if time_range.is_none() {
+            return;
+        }
         self.min_ts = min(self.min_ts, time_range.min_ts);
         self.max_ts = max(self.max_ts, time_range.max_ts);
         let timestamps = self
@@ -342,7 +357,8 @@ impl TimeRanges {
     }
 
     pub fn is_boundless(&self) -> bool {
-        self.min_ts == Timestamp::MIN && self.max_ts == Timestamp::MAX
+        // There may be gaps between the minimum and the maximum timestamp.
+        self.inner.get(&Timestamp::MIN) == Some(&Timestamp::MAX)
     }
 
     pub fn overlaps(&self, time_range: &TimeRange) -> bool {
-- 
2.43.0


From cddd9505909b96b8857e35e4776f4445de95b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 34/76] fix: bounds of ranges with the same value are ordered
 by inclusiveness

---
 common/models/src/predicate/domain.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index f10c081..1800d67 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -437,7 +437,7 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+#[derive(Debug, Clone, PartialEq, PartialOrd, Ord, Serialize, Deserialize, Eq)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -679,7 +679,11 @@ impl Ord for Marker {
         let self_data = self.value.as_ref().unwrap();
         let other_data = other.value.as_ref().unwrap();
 
-        self_data.partial_cmp(other_data).unwrap()
+        // A point just below (above) a value is less (greater) than the value itself.
+        self_data
+            .partial_cmp(other_data)
+            .unwrap()
+            .then_with(|| self.bound.cmp(&other.bound))
     }
 }
 
@@ -901,17 +905,8 @@ impl Range {
     /// Returns an exception if the data types are incompatible.
     fn overlaps(&self, other: &Self) -> ModelResult<bool> {
         self.check_type_compatibility(other)?;
-        if self.low <= other.high && other.low <= self.high {
-            // like (-∞, 2) and (2, +∞) is not overlap
-            if self.high == other.low
-                && self.high.bound == Bound::Below
-                && other.low.bound == Bound::Above
-            {
-                return Ok(false);
-            }
-            return Ok(true);
-        }
-        Ok(false)
+        // like (-∞, 2) and (2, +∞) is not overlap
+        Ok(self.low <= other.high && other.low <= self.high)
     }
     /// Calculates the intersection of two ranges.
     ///
-- 
2.43.0


From 9154c6aab1f458621084b1645fbed18e7e81bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 35/76] fix: DELETE keeps to all conditions of its conjunction,
 and to null and constant ones

---
 common/models/src/predicate/domain.rs         |   2 +-
 common/models/src/predicate/transformation.rs | 193 ++++++------------
 2 files changed, 59 insertions(+), 136 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1800d67..6bb37f4 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -1625,7 +1625,7 @@ where
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{{ ")?;
         if let Some(ref column_to_domain) = self.column_to_domain {
-            let max_i = column_to_domain.len() - 1;
+            let max_i = column_to_domain.len().saturating_sub(1);
             for (i, (column, domain)) in column_to_domain.iter().enumerate() {
                 write!(f, "{column}: {domain}")?;
                 if i < max_i {
diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..0b8cd1f 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -1,7 +1,7 @@
 use std::collections::VecDeque;
 use std::result;
 
-use datafusion::arrow::datatypes::DataType;
+use datafusion::arrow::datatypes::{DataType, TimeUnit};
 use datafusion::common::tree_node::{TreeNode, TreeNodeVisitor, VisitRecursion};
 use datafusion::common::Result as DFResult;
 use datafusion::error::DataFusionError;
@@ -71,7 +71,7 @@ impl NormalizedSimpleComparison {
         }
         .and_then(|e| {
             // not support null with column of binary op
-            if matches!(e.value, ScalarValue::Null | ScalarValue::Utf8(None)) {
+            if e.value.is_null() {
                 return None;
             }
             Some(e)
@@ -352,65 +352,25 @@ impl RowExpressionToDomainsVisitor<'_> {
 
 #[derive(Clone, Default)]
 struct DeleteSelectionExpressionToDomainsVisitorContext {
-    is_time_domain_stack: VecDeque<bool>,
-    tag_domain_stack: VecDeque<ColumnDomains<String>>,
-    time_domain_stack: VecDeque<ColumnDomains<String>>,
+    // Only conjunctions are supported, so all domains are intersected.
+    tag_domains: ColumnDomains<String>,
+    time_domains: ColumnDomains<String>,
 }
 
 impl DeleteSelectionExpressionToDomainsVisitorContext {
-    pub fn push_back(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
-        self.is_time_domain_stack.push_back(is_time_domain);
+    pub fn intersect(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
         if is_time_domain {
-            trace::trace!("push time {domain}");
-            self.time_domain_stack.push_back(domain);
+            trace::trace!("intersect time {domain}");
+            self.time_domains.intersect(&domain);
         } else {
-            trace::trace!("push tag {domain}");
-            self.tag_domain_stack.push_back(domain);
-        }
-    }
-
-    pub fn try_intersect_top2_domains(&mut self) {
-        let domain1_is_time_opt = self.is_time_domain_stack.pop_back();
-        let domain2_is_time_opt = self.is_time_domain_stack.back();
-        match (domain1_is_time_opt, domain2_is_time_opt) {
-            (Some(domain1_is_time), Some(domain2_is_time)) => {
-                if domain1_is_time == *domain2_is_time {
-                    if domain1_is_time {
-                        // Last two is tag domains
-                        let mut domains1 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push time {domains1}");
-                        self.time_domain_stack.push_back(domains1);
-                    } else {
-                        // Last two is tag domains
-                        let mut domains1 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push tag {domains1}");
-                        self.tag_domain_stack.push_back(domains1);
-                    }
-                }
-            }
-            (Some(t1), None) => self.is_time_domain_stack.push_back(t1),
-            _ => {}
+            trace::trace!("intersect tag {domain}");
+            self.tag_domains.intersect(&domain);
         }
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
-        (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-        )
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        (self.tag_domains, self.time_domains)
     }
 }
 
@@ -424,100 +384,43 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
     type N = Expr;
 
     fn pre_visit(&mut self, expr: &Expr) -> Result<VisitRecursion> {
-        // Note: expressions that can be used as and/or child nodes need to be processed.
-        // Expressions returning boolean need to be processed, If the expression is not supported, push ColumnDomains::all() onto the stack.
-        // If the expression supports it, return Continue directly.
         match expr {
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => Ok(VisitRecursion::Continue),
-            e @ Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
-                trace::trace!("pre visit binary expr: {e}");
-                match op {
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And => {
-                        // Supported
-                        Ok(VisitRecursion::Continue)
-                    }
-                    other => Err(DataFusionError::NotImplemented(format!(
-                        "operator {other} in delete statement"
-                    ))),
-                }
-            }
-            other => {
-                // self.ctx
-                //     .current_domain_stack
-                //     .push_back(ColumnDomains::all());
-                Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
-            }
-        }
-    }
-
-    fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
-        match expr {
-            e @ Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
-                trace::trace!("post visit binary expr: {e}");
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+                trace::trace!("visit binary expr: {expr}");
                 match op {
-                    // The stack is expression, clean and generate a new domain
+                    // The domains of both sides are intersected one after another
+                    Operator::And => Ok(VisitRecursion::Continue),
                     Operator::Eq
                     | Operator::NotEq
                     | Operator::Lt
                     | Operator::LtEq
                     | Operator::Gt
-                    | Operator::GtEq => match (left.as_ref(), right.as_ref()) {
-                        (Expr::Column(_), Expr::Literal(_))
-                        | (Expr::Literal(_), Expr::Column(_)) => {
-                            Self::construct_value_set_and_push_domain_stack(
-                                self.ctx, left, op, right,
-                            );
-                        }
-                        (Expr::Literal(_), Expr::Cast(expr))
-                        | (Expr::Cast(expr), Expr::Literal(_)) => {
-                            if let Expr::Column(_) = *expr.expr {
-                                Self::construct_value_set_and_push_domain_stack(
-                                    self.ctx, left, op, right,
-                                );
-                            } else {
-                                return Err(DataFusionError::NotImplemented(format!(
-                                    "{left} {op} {right} in delete statement"
-                                )));
-                            }
-                        }
-                        _ => {
+                    | Operator::GtEq => {
+                        if !Self::is_supported_comparison(left, right) {
                             return Err(DataFusionError::NotImplemented(format!(
                                 "{left} {op} {right} in delete statement"
-                            )))
+                            )));
                         }
-                    },
-                    // The stack is domain, pop it, and generate a new domain
-                    Operator::And => {
-                        self.ctx.try_intersect_top2_domains();
-                    }
-                    _ => {
-                        return Err(DataFusionError::NotImplemented(format!(
-                            "{expr} in delete statement"
-                        )))
+                        Self::construct_value_set_and_intersect_domains(self.ctx, left, op, right);
+                        Ok(VisitRecursion::Skip)
                     }
+                    other => Err(DataFusionError::NotImplemented(format!(
+                        "operator {other} in delete statement"
+                    ))),
                 }
             }
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => {}
-            other => {
-                return Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
+            // A constant condition, null matches nothing
+            Expr::Literal(ScalarValue::Boolean(Some(true))) => Ok(VisitRecursion::Continue),
+            Expr::Literal(
+                ScalarValue::Boolean(Some(false)) | ScalarValue::Boolean(None) | ScalarValue::Null,
+            ) => {
+                self.ctx.intersect(ColumnDomains::none(), true);
+                Ok(VisitRecursion::Continue)
             }
+            other => Err(DataFusionError::NotImplemented(format!(
+                "{other} in delete statement"
+            ))),
         }
-
-        Ok(VisitRecursion::Continue)
     }
 }
 
@@ -530,6 +433,25 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         Ok(ctx.into_tag_and_time_domains())
     }
 
+    /// Only comparisons of a column with a value are supported. The column may be casted
+    /// if that does not change the order of its values.
+    fn is_supported_comparison(left: &Expr, right: &Expr) -> bool {
+        match (left, right) {
+            (Expr::Column(_), Expr::Literal(_)) | (Expr::Literal(_), Expr::Column(_)) => true,
+            (Expr::Literal(_), Expr::Cast(cast)) | (Expr::Cast(cast), Expr::Literal(_)) => {
+                match cast.expr.as_ref() {
+                    Expr::Column(column) if column.name == TIME_FIELD_NAME => matches!(
+                        cast.data_type,
+                        DataType::Timestamp(TimeUnit::Nanosecond, _)
+                    ),
+                    Expr::Column(_) => cast.data_type == DataType::Utf8,
+                    _ => false,
+                }
+            }
+            _ => false,
+        }
+    }
+
     /// Convert nsc to RangeValueSet, nsc.column will be transform into nsc.column.name
     ///
     /// Note: nsc must supports ordering, i.e. is_orderable == true
@@ -565,8 +487,8 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
     ///
     /// Convert nsc to ValueSet via NscToValueSet function
     ///
-    /// Push the domain into the stack
-    fn construct_value_set_and_push_domain_stack(
+    /// Intersect the domain with the domains in the context
+    fn construct_value_set_and_intersect_domains(
         ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
         left: &Expr,
         op: &Operator,
@@ -578,9 +500,10 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
             } else {
                 Self::nsc_to_domains_with_equtable(&nsc)
             };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
+            ctx.intersect(domains, nsc.column.name == TIME_FIELD_NAME);
         } else {
-            println!("push nothing!");
+            // A comparison with null matches nothing
+            ctx.intersect(ColumnDomains::none(), true);
         }
     }
 }
-- 
2.43.0


From 11fc99c641f295ed33de39f50a4a3786b1bbab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 36/76] fix: conditions nested in comparisons and boolean
 columns are not mistaken for filters

---
 common/models/src/predicate/transformation.rs | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 0b8cd1f..1d288ab 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -186,23 +186,24 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
             // | Expr::Wildcard
             // | Expr::QualifiedWildcard { .. }
             // | Expr::GetIndexedField { .. } => {}
-            Expr::Column(_) | Expr::Literal(_) => Ok(VisitRecursion::Continue),
-            Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
                 match op {
+                    Operator::And | Operator::Or => {
+                        // The domains of both sides are combined in post_visit
+                        Ok(VisitRecursion::Continue)
+                    }
                     Operator::Eq
                     | Operator::NotEq
                     | Operator::Lt
                     | Operator::LtEq
                     | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And
-                    | Operator::Or => {
-                        // support
-                        Ok(VisitRecursion::Continue)
+                    | Operator::GtEq => {
+                        // Generate the domain of the comparison, its operands (even if they are
+                        // comparisons themselves) must not leave any domain on the stack
+                        Self::construct_value_set_and_push_current_domain_stack(
+                            self.ctx, left, op, right,
+                        );
+                        Ok(VisitRecursion::Skip)
                     }
                     _ => {
                         // not support
@@ -233,25 +234,20 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
                     .push_back(ColumnDomains::all());
                 Ok(VisitRecursion::Skip)
             }
-            _ => Ok(VisitRecursion::Skip),
+            // Any other condition (e.g. a boolean column), every condition must push one domain
+            _ => {
+                self.ctx
+                    .current_domain_stack
+                    .push_back(ColumnDomains::all());
+                Ok(VisitRecursion::Skip)
+            }
         }
     }
 
     fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
         match expr {
-            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+            Expr::BinaryExpr(BinaryExpr { op, .. }) => {
                 match op {
-                    // stack中为expr，清空，生成domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => {
-                        Self::construct_value_set_and_push_current_domain_stack(
-                            self.ctx, left, op, right,
-                        );
-                    }
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
                         let domain1_opt = self.ctx.current_domain_stack.pop_back();
-- 
2.43.0


From eca283932dbcee89b5af79793912b9990ae8d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 37/76] fix: filters over a casted column do not hide rows

---
 common/models/src/predicate/domain.rs         | 55 ++++++++++++++++---
 common/models/src/predicate/mod.rs            |  4 +-
 common/models/src/predicate/transformation.rs | 34 ++++++------
 3 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 6bb37f4..95398c5 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -26,7 +26,7 @@ use super::transformation::RowExpressionToDomainsVisitor;
 use super::utils::filter_to_time_ranges;
 use super::PlacedSplit;
 use crate::errors::{InternalSnafu, InvalidQueryExprMsgSnafu, InvalidSerdeMessageSnafu};
-use crate::schema::tskv_table_schema::{ColumnType, TskvTableSchemaRef};
+use crate::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchemaRef};
 use crate::{ModelResult, Timestamp};
 
 pub type PredicateRef = Arc<Predicate>;
@@ -1152,6 +1152,11 @@ impl Domain {
             return Ok(Domain::None);
         }
 
+        // Check if types match before sorting
+        for next in &res[1..] {
+            res[0].check_type_compatibility(next)?;
+        }
+
         let mut ranges = res.to_vec();
         ranges.sort_by(|l, r| l.low.cmp(&r.low));
 
@@ -1161,9 +1166,6 @@ impl Domain {
         let mut low_indexed_ranges: BTreeMap<Marker, Range> = BTreeMap::default();
 
         for next in &ranges[1..] {
-            // Check if types match
-            current.check_type_compatibility(next)?;
-
             match current.overlaps(next) {
                 Ok(true) => {
                     // If the two ranges have intersection, then merge
@@ -1204,6 +1206,23 @@ impl Domain {
             entries,
         })
     }
+    /// Whether the values of the domain are values of a column of the type.
+    fn match_type(&self, column_type: &DataType) -> bool {
+        let match_type = |data_type: &DataType| match (data_type, column_type) {
+            (DataType::Timestamp(unit, _), DataType::Timestamp(column_unit, _)) => {
+                unit == column_unit
+            }
+            (data_type, column_type) => data_type == column_type,
+        };
+        match self {
+            Self::Range(set) => set
+                .low_indexed_ranges
+                .values()
+                .all(|range| match_type(range.get_type())),
+            Self::Equtable(set) => match_type(&set.data_type),
+            Self::None | Self::All => true,
+        }
+    }
     /// Calculates the intersection of two ranges, and returns None if the intersection does not exist
     ///
     /// This method returns the new value without changing the old value
@@ -1525,6 +1544,17 @@ impl<T: Eq + Hash + Clone> ColumnDomains<T> {
         }
     }
 
+    /// Retains only the domains specified by the predicate.
+    fn retain<F>(mut self, f: F) -> Self
+    where
+        F: Fn(&T, &Domain) -> bool,
+    {
+        if let Some(map) = self.column_to_domain.as_mut() {
+            map.retain(|k, v| f(k, v));
+        }
+        self
+    }
+
     /// Intersection with other will change the current value
     pub fn intersect(&mut self, other: &ColumnDomains<T>) {
         match (
@@ -1536,7 +1566,10 @@ impl<T: Eq + Hash + Clone> ColumnDomains<T> {
                 map2.iter().for_each(|(k2, v2)| {
                     map1.entry(k2.clone())
                         .and_modify(|v1| {
-                            *v1 = v1.intersect(v2).unwrap_or(Domain::None);
+                            // Domains of different types can not be intersected, keep one of them
+                            if let Ok(v) = v1.intersect(v2) {
+                                *v1 = v;
+                            }
                         })
                         .or_insert_with(|| v2.clone());
                 });
@@ -1769,10 +1802,16 @@ impl Predicate {
         }
     }
 
+    /// The domains of the columns of the table, without those of values which are not values of
+    /// their column (but e.g. of the column casted to another type).
+    pub(crate) fn table_domains(&self, table: &TskvTableSchemaRef) -> ColumnDomains<TableColumn> {
+        self.filter()
+            .translate_column(|c| table.column(&c.name).cloned())
+            .retain(|column, domain| domain.match_type(&column.column_type.clone().into()))
+    }
+
     pub fn resolve(&self, table: &TskvTableSchemaRef) -> ModelResult<ResolvedPredicateRef> {
-        let domains_filter = self
-            .filter()
-            .translate_column(|c| table.column(&c.name).cloned());
+        let domains_filter = self.table_domains(table);
 
         let time_filter = domains_filter.translate_column(|e| match e.column_type {
             ColumnType::Time(_) => Some(e.name.clone()),
diff --git a/common/models/src/predicate/mod.rs b/common/models/src/predicate/mod.rs
index 51f8d6a..c2969e2 100644
--- a/common/models/src/predicate/mod.rs
+++ b/common/models/src/predicate/mod.rs
@@ -30,9 +30,7 @@ impl Split {
         predicate: PredicateRef,
         filter: Option<Arc<dyn PhysicalExpr>>,
     ) -> ModelResult<Self> {
-        let domains_filter = predicate
-            .filter()
-            .translate_column(|c| table.column(&c.name).cloned());
+        let domains_filter = predicate.table_domains(&table);
 
         let tags_filter = domains_filter.translate_column(|e| match e.column_type {
             ColumnType::Tag => Some(e.name.clone()),
diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 1d288ab..522af85 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -5,7 +5,7 @@ use datafusion::arrow::datatypes::{DataType, TimeUnit};
 use datafusion::common::tree_node::{TreeNode, TreeNodeVisitor, VisitRecursion};
 use datafusion::common::Result as DFResult;
 use datafusion::error::DataFusionError;
-use datafusion::logical_expr::{BinaryExpr, Operator};
+use datafusion::logical_expr::{BinaryExpr, Cast, Operator};
 use datafusion::prelude::{Column, Expr};
 use datafusion::scalar::ScalarValue;
 
@@ -49,23 +49,15 @@ impl NormalizedSimpleComparison {
                 op: Self::reverse_op(op),
                 value,
             }),
-            (Expr::Cast(expr), _, Expr::Literal(value)) => {
-                if let Expr::Column(column) = *expr.expr {
-                    Some(Self { column, op, value })
-                } else {
-                    None
-                }
+            (Expr::Cast(cast), _, Expr::Literal(value)) => {
+                Self::column_of_cast(cast).map(|column| Self { column, op, value })
             }
-            (Expr::Literal(value), _, Expr::Cast(expr)) => {
-                if let Expr::Column(column) = *expr.expr {
-                    Some(Self {
-                        column,
-                        op: Self::reverse_op(op),
-                        value,
-                    })
-                } else {
-                    None
-                }
+            (Expr::Literal(value), _, Expr::Cast(cast)) => {
+                Self::column_of_cast(cast).map(|column| Self {
+                    column,
+                    op: Self::reverse_op(op),
+                    value,
+                })
             }
             (_, _, _) => None,
         }
@@ -77,6 +69,14 @@ impl NormalizedSimpleComparison {
             Some(e)
         })
     }
+    /// Extract the column of a cast that does not change the order of the values if the column
+    /// is a time column (or a string column), casts between other types may do so.
+    fn column_of_cast(cast: Cast) -> Option<Column> {
+        match (*cast.expr, cast.data_type) {
+            (Expr::Column(column), DataType::Timestamp(_, _) | DataType::Utf8) => Some(column),
+            _ => None,
+        }
+    }
     /// Determine if a data type is sortable
     fn is_orderable(&self) -> bool {
         match self.value {
-- 
2.43.0


From 1b45057c6b98f8caecbc1379e22d366a134b61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 38/76] fix: a write with an older schema does not hide columns
 of the series in the memcache

---
 tskv/src/mem_cache/series_data.rs | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index ceefa35..901759c 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -43,15 +43,40 @@ impl SeriesData {
     pub fn write(&mut self, group: RowGroup) {
         self.range.merge(&group.range);
 
-        for item in self.groups.iter_mut().rev() {
-            if item.schema.schema_version == group.schema.schema_version {
+        // a write may come with an older schema than the newest one the series has seen,
+        // the groups stay ordered by their versions and the last group takes every write
+        if let Some(item) = self.groups.back_mut() {
+            if group.schema.schema_version <= item.schema.schema_version {
                 item.range.merge(&group.range);
+                let same_fields = item.schema.fields_id() == group.schema.fields_id();
+                let rows: Vec<RowData> = if same_fields {
+                    group.rows.get_rows().into_iter().collect()
+                } else {
+                    let from = group.schema.fields_id();
+                    let to = item.schema.fields_id();
+                    group
+                        .rows
+                        .get_rows()
+                        .into_iter()
+                        .map(|mut row| {
+                            let mut fields = vec![None; to.len()];
+                            for (id, to_idx) in to {
+                                if let Some(from_idx) = from.get(id) {
+                                    fields[*to_idx] =
+                                        row.fields.get_mut(*from_idx).and_then(|f| f.take());
+                                }
+                            }
+                            RowData { ts: row.ts, fields }
+                        })
+                        .collect()
+                };
                 // of rows with the same timestamp the last one inserted is the newest
-                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
                 rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
-                item.schema = group.schema;
+                if same_fields && group.schema.schema_version == item.schema.schema_version {
+                    item.schema = group.schema;
+                }
                 return;
             }
         }
-- 
2.43.0


From 2a6739d1c6e59777f0739e547c4069082e8ed363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 39/76] fix: a table whose name starts another one's does not
 read or delete its series

---
 tskv/src/index/engine2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e86ea7f..5059810 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -266,6 +266,12 @@ impl IndexEngine2 {
                 .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
             for val in it {
                 let val = val.map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+                // the prefix also starts the keys of a table with the name `{tab}.{other}`,
+                // their tag keys follow a further dot
+                let tag_key = val.0[prefix.len()..].split(|b| *b == b'=').next();
+                if tag_key.is_some_and(|key| key.contains(&b'.')) {
+                    continue;
+                }
                 let rb = RoaringBitmap::deserialize_from(val.1).context(RoaringBitmapSnafu)?;
                 bitmap = bitmap.bitor(rb);
             }
-- 
2.43.0


From 757a402c3fbb747aa99bf52d0c843e0763b3fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 40/76] fix: tags of updated series are ordered as the index
 orders them

---
 tskv/src/vnode_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 3a8c255..081e3a0 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -452,9 +452,11 @@ impl VnodeStorage {
 
         let mut series = Vec::with_capacity(cmd.matched_series.len());
         for key in cmd.matched_series.iter() {
-            let ss = SeriesKey::decode(key).map_err(|e| InvalidParamSnafu {
+            let mut ss = SeriesKey::decode(key).map_err(|e| InvalidParamSnafu {
             reason: format!("Deserialize 'matched_series' of 'UpdateTagsRequest' failed, expected: SeriesKey, error msg: {e}"),
         }.build())?;
+            // the tags may come in the order of the columns, the index orders them by key
+            models::tag::sort_tags(&mut ss.tags);
             series.push(ss);
         }
 
-- 
2.43.0


From b4fa52d0c1ac3b135872b918cff75606157924b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 41/76] fix: a data file rewritten by a tag update can be read
 with compressed metadata

---
 tskv/src/tsm/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/writer.rs b/tskv/src/tsm/writer.rs
index f1a8e66..787cb34 100644
--- a/tskv/src/tsm/writer.rs
+++ b/tskv/src/tsm/writer.rs
@@ -468,6 +468,11 @@ impl TsmWriter {
             .truncate(meta.footer().series().chunk_offset() as usize)
             .await
             .context(IOSnafu)?;
+        let tsm_v = if tsm_meta_encode == Encoding::Null {
+            TsmVersion::V1
+        } else {
+            TsmVersion::V2
+        };
         let mut writer = Self {
             file_id,
             max_ts: i64::MIN,
@@ -480,7 +485,7 @@ impl TsmWriter {
             page_specs: Default::default(),
             chunk_specs: Default::default(),
             chunk_group_specs: Default::default(),
-            footer: Footer::empty(TsmVersion::V1),
+            footer: Footer::empty(tsm_v),
             state: State::Initialised,
             tsm_meta_encode,
         };
-- 
2.43.0


From f669b3849fe9c3aa477c270c82bd0ec7be5b4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 42/76] fix: rows deleted after a flush do not stay as rows
 without values

---
 tskv/src/tsm/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index bd120bf..3136b29 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -513,7 +513,13 @@ pub fn decode_pages(
                 reason: "time field not found".to_string(),
             })?;
         let (time_array, time_range, time) = get_time_page_meta(time_page)?;
-        let filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        // the rows deleted from the series have a tombstone for the time column
+        let mut filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        filters.extend(tomb.get_column_overlapped_time_ranges(
+            series_id,
+            time_page.meta.column.id,
+            &time_range,
+        ));
         let time_null_bits = {
             if filters.is_empty() {
                 None
-- 
2.43.0


From 3abf5701ab86c16945259c9a0f4b822e4bd38074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 43/76] fix: rows of files and memcaches are ranked by the age
 of their data, not by file id

---
 tskv/src/reader/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..f249067 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -305,9 +305,20 @@ impl PartialOrd<Self> for DataReference {
     }
 }
 
+/// The one that has newer data is greater: memcaches are newer than all files, files of the lower
+/// level are newer than the files of the higher level (a file created by compaction may has larger
+/// file_id than the files that has newer data).
 impl Ord for DataReference {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        match (self, other) {
+            (DataReference::Chunk(_, _, f1), DataReference::Chunk(_, _, f2)) => f2
+                .level()
+                .cmp(&f1.level())
+                .then_with(|| f1.file_id().cmp(&f2.file_id())),
+            (DataReference::Chunk(..), DataReference::Memcache(..)) => Ordering::Less,
+            (DataReference::Memcache(..), DataReference::Chunk(..)) => Ordering::Greater,
+            (DataReference::Memcache(_, _, c1), DataReference::Memcache(_, _, c2)) => c1.cmp(c2),
+        }
     }
 }
 
-- 
2.43.0


From 96a99f8682333b144cf05cc6a12dc8c2f5e9b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 44/76] fix: compaction merges a series from all files even if
 it is not the first one of each file

---
 tskv/src/compaction/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..b803afc 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -304,6 +304,8 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // Keep the order of files for the same series.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From d6706666245c2c49a3b90322c77346546318d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 45/76] fix: compaction does not move data past overlapping
 data which is older

---
 tskv/src/compaction/compact.rs |  45 ++++++---
 tskv/src/compaction/mod.rs     |  24 +++++
 tskv/src/compaction/picker.rs  | 161 +++++++++++++++++++++++++++------
 3 files changed, 189 insertions(+), 41 deletions(-)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index b803afc..4c83fcf 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -551,25 +551,46 @@ pub async fn run_delta_compaction_job(
         request.compact_task
     );
 
-    let (delta_files, level_file) = request.split_delta_and_level_files();
+    let (mut delta_files, _) = request.split_delta_and_level_files();
     if delta_files.is_empty() {
         return Ok(None);
     }
+    let mut level_files = request.files.clone();
+    level_files.retain(|f| !f.is_delta());
     let compact_task = request.compact_task;
     let out_time_range = request.out_time_range;
+
+    // Older delta files with data in the time range are compacted together, otherwise their data
+    // would be treated as newer than the data moved to level-1~4.
+    let older_delta_files =
+        CompactReq::older_delta_files(&request.version, &delta_files, &out_time_range);
+    for file in older_delta_files {
+        if !file.mark_compacting().await {
+            info!(
+                "Compaction({compact_task}): Canceled, older delta file {} is compacting",
+                file.file_id()
+            );
+            for f in delta_files.iter().chain(level_files.iter()) {
+                *f.write_lock_compacting().await = false;
+            }
+            return Ok(None);
+        }
+        delta_files.push(file);
+    }
+    // Data in files of level-1~4 is older than delta files, and in a level, a file with larger
+    // file_id has the newer data.
+    level_files.sort_by_key(|f| f.file_id());
+    delta_files.sort_by_key(|f| f.file_id());
+
     // Collect l0-files that can be deleted after compaction.
     let mut l0_file_metas_will_delete: Vec<CompactMeta> = Vec::new();
     // Collect l0-files that partly deleted after compaction.
     let mut l0_file_metas_will_partly_delete: Vec<CompactMeta> = Vec::new();
-    // Open l0-files and tsm-file to run compaction.
-    let mut tsm_readers = match &level_file {
-        None => Vec::with_capacity(delta_files.len()),
-        Some(f) => {
-            let mut tsm_readers = Vec::with_capacity(1 + delta_files.len());
-            tsm_readers.push(request.version.get_tsm_reader(f.file_path()).await?);
-            tsm_readers
-        }
-    };
+    // Open l0-files and tsm-files to run compaction.
+    let mut tsm_readers = Vec::with_capacity(level_files.len() + delta_files.len());
+    for file in level_files.iter() {
+        tsm_readers.push(request.version.get_tsm_reader(file.file_path()).await?);
+    }
 
     for file in delta_files {
         let l0_file_reader = request.version.get_tsm_reader(file.file_path()).await?;
@@ -596,8 +617,8 @@ pub async fn run_delta_compaction_job(
 
     // Level 0 files that can be deleted after compaction.
     version_edit.del_files = l0_file_metas_will_delete;
-    if let Some(f) = level_file {
-        // Lvel 1-4 file that can be deleted after compaction.
+    for f in level_files {
+        // Level 1-4 files that can be deleted after compaction.
         version_edit.del_files.push(f.as_ref().into());
     }
     // Level 0 files that partly deleted after compaction.
diff --git a/tskv/src/compaction/mod.rs b/tskv/src/compaction/mod.rs
index 266b5e2..02ed93f 100644
--- a/tskv/src/compaction/mod.rs
+++ b/tskv/src/compaction/mod.rs
@@ -105,6 +105,30 @@ impl CompactReq {
         (delta_files, level_files)
     }
 
+    /// Get the delta files which are older than some of the `files` and have data in the time range.
+    pub fn older_delta_files(
+        version: &Version,
+        files: &[Arc<ColumnFile>],
+        time_range: &TimeRange,
+    ) -> Vec<Arc<ColumnFile>> {
+        let newest_file_id = files
+            .iter()
+            .filter(|f| f.is_delta())
+            .map(|f| f.file_id())
+            .max()
+            .unwrap_or_default();
+        version.levels_info()[0]
+            .files
+            .iter()
+            .filter(|f| {
+                f.file_id() < newest_file_id
+                    && f.overlap(time_range)
+                    && !files.iter().any(|file| file.file_id() == f.file_id())
+            })
+            .cloned()
+            .collect()
+    }
+
     pub fn set_file_id(&mut self, file_id: IDGenerator) {
         self.file_id = file_id;
     }
diff --git a/tskv/src/compaction/picker.rs b/tskv/src/compaction/picker.rs
index 5d23a5e..c05b6b4 100644
--- a/tskv/src/compaction/picker.rs
+++ b/tskv/src/compaction/picker.rs
@@ -1,7 +1,7 @@
 use std::fmt::Debug;
 use std::sync::Arc;
 
-use models::predicate::domain::TimeRange;
+use models::predicate::domain::{TimeRange, TimeRanges};
 use tokio::sync::RwLockWriteGuard;
 use trace::{debug, error, info};
 use utils::id_generator::IDGenerator;
@@ -81,12 +81,15 @@ impl LevelCompactionPicker {
 
         let mut files = level_start.files.clone();
         files.sort_by(Self::compare_column_file);
-        let picking_files: Vec<Arc<ColumnFile>> =
+        let mut picking_files: Vec<Arc<ColumnFile>> =
             Self::pick_files(files, storage_opt.max_compact_size).await;
         debug!("Picker(level): Picked files: [ {:?} ]", &picking_files);
         if picking_files.is_empty() {
             return None;
         }
+        Self::pick_overlapped_files(&level_start.files, &mut picking_files).await;
+        // In a level, a file with larger file_id has the newer data.
+        picking_files.sort_by_key(|f| f.file_id());
 
         // Run compaction and send them to the next level, even if picked only 1 file,.
         Some(CompactReq {
@@ -212,6 +215,24 @@ impl LevelCompactionPicker {
 
         dst_files
     }
+
+    /// Pick the files of the level that overlaps with picked files too, otherwise older data
+    /// may be left in the level while the newer data goes to the next level.
+    async fn pick_overlapped_files(
+        src_files: &[Arc<ColumnFile>],
+        dst_files: &mut Vec<Arc<ColumnFile>>,
+    ) {
+        let mut i = 0;
+        while i < dst_files.len() {
+            let time_range = *dst_files[i].time_range();
+            for file in src_files.iter() {
+                if file.overlap(&time_range) && file.mark_compacting().await {
+                    dst_files.push(file.clone());
+                }
+            }
+            i += 1;
+        }
+    }
 }
 
 /// For the given time_range of a file, return recommended level to compact in.
@@ -271,10 +292,16 @@ impl DeltaCompactionPicker {
         &self,
         file: &ColumnFile,
     ) -> TskvResult<TimeRange> {
+        let trs = self.delta_file_remained_time_ranges(file).await?;
+        let first_tr = trs.time_ranges().next();
+        Ok(first_tr.unwrap_or_else(TimeRange::none))
+    }
+
+    async fn delta_file_remained_time_ranges(&self, file: &ColumnFile) -> TskvResult<TimeRanges> {
         let tomb_path = file.tombstone_path();
         let tomb_trs = match TsmTombstoneCache::load(tomb_path).await {
             Ok(Some(tomb_cache)) => tomb_cache.all_excluded().clone(),
-            Ok(None) => return Ok(*file.time_range()),
+            Ok(None) => return Ok(TimeRanges::new(vec![*file.time_range()])),
             Err(e) => {
                 error!(
                     "Picker(delta) [{}]: failed to load tombstone file '{}': {e}",
@@ -289,14 +316,77 @@ impl DeltaCompactionPicker {
             file.file_id(),
         );
         match file.time_range().exclude_time_ranges(&tomb_trs) {
-            Some(trs) => {
-                if let Some(tr) = trs.time_ranges().next() {
-                    Ok(tr)
-                } else {
-                    Ok(TimeRange::none())
+            Some(trs) => Ok(trs),
+            None => Ok(TimeRanges::empty()),
+        }
+    }
+
+    /// Pick files of level-1~4 to merge with the delta file, returns the level, the files and
+    /// time range of the files. Returns None if one of the files is compacting.
+    ///
+    /// All data in the time range is going to be moved out of the delta file (and the delta files
+    /// older than it), so there must be no files overlapped with that data in the lower levels.
+    async fn pick_level_files(
+        &self,
+        version: &Version,
+        l0_file: &Arc<ColumnFile>,
+        level: &LevelInfo,
+        time_range: &TimeRange,
+    ) -> TskvResult<Option<(LevelId, Vec<Arc<ColumnFile>>, TimeRange)>> {
+        let mut level = level;
+        let mut level_files: Vec<Arc<ColumnFile>> = Vec::with_capacity(1);
+        level_files.extend(level.files.iter().find(|f| f.overlap(time_range)).cloned());
+        loop {
+            // The files overlapped with each other need to be merged together.
+            let mut i = 0;
+            while i < level_files.len() {
+                let file_tr = *level_files[i].time_range();
+                for f in level.files.iter() {
+                    if f.overlap(&file_tr)
+                        && !level_files.iter().any(|lf| lf.file_id() == f.file_id())
+                    {
+                        level_files.push(f.clone());
+                    }
+                }
+                i += 1;
+            }
+            let mut out_time_range = TimeRange::none();
+            for f in level_files.iter() {
+                if f.is_compacting().await {
+                    return Ok(None);
                 }
+                out_time_range.merge(f.time_range());
+            }
+
+            let mut delta_files = CompactReq::older_delta_files(
+                version,
+                std::slice::from_ref(l0_file),
+                &out_time_range,
+            );
+            delta_files.push(l0_file.clone());
+            let mut lower_level_file = None;
+            'find_lower_level_file: for delta_file in delta_files {
+                let remained_trs = self.delta_file_remained_time_ranges(&delta_file).await?;
+                for tr in remained_trs.time_ranges() {
+                    let tr = match tr.intersect(&out_time_range) {
+                        Some(tr) => tr,
+                        None => continue,
+                    };
+                    for lower_level in version.levels_info()[1..level.level() as usize].iter() {
+                        if let Some(f) = lower_level.files.iter().find(|f| f.overlap(&tr)) {
+                            lower_level_file = Some((lower_level, f.clone()));
+                            break 'find_lower_level_file;
+                        }
+                    }
+                }
+            }
+            match lower_level_file {
+                Some((lower_level, lower_level_file)) => {
+                    level = lower_level;
+                    level_files = vec![lower_level_file];
+                }
+                None => return Ok(Some((level.level(), level_files, out_time_range))),
             }
-            None => Ok(TimeRange::none()),
         }
     }
 
@@ -432,32 +522,45 @@ impl DeltaCompactionPicker {
             // Find the first file in level1-4 that overlaps with lv0-file
             for lv in lv14 {
                 if lv.time_range.overlaps(&l0_file_remained_tr_first) {
-                    for lv_file in lv.files.iter() {
-                        let mut lv_file_compacting = lv_file.write_lock_compacting().await;
-                        if *lv_file_compacting {
-                            continue;
-                        }
-                        if lv_file.time_range().overlaps(&l0_file_remained_tr_first) {
-                            *lv_file_compacting = true;
-                            *l0_file_compacting = true;
-                            info!("Picker(delta) [{}]: picked two level files: level_0 file({l0_file}), level file: {lv_file} to level: {}", self.timestamp, lv.level());
-                            return Some(CompactReq {
-                                compact_task,
-                                version: version.clone(),
-                                files: vec![l0_file.clone(), lv_file.clone()],
-                                in_level: 0,
-                                out_level: lv.level(),
-                                // One delta-file and one level-file, the out_time_range is
-                                // the time range of the level-file.
-                                out_time_range: *lv_file.time_range(),
-                                file_id: IDGenerator::new(u64::MAX),
-                            });
+                    if lv
+                        .files
+                        .iter()
+                        .any(|f| f.overlap(&l0_file_remained_tr_first))
+                    {
+                        let picked_level_files = self
+                            .pick_level_files(&version, &l0_file, lv, &l0_file_remained_tr_first)
+                            .await;
+                        let (out_level, level_files, out_time_range) = match picked_level_files {
+                            Ok(Some(picked)) => picked,
+                            _ => {
+                                info!("Picker(delta) [{}]: files overlapped with level_0 file({l0_file}) cannot be picked now", self.timestamp);
+                                return None;
+                            }
+                        };
+                        *l0_file_compacting = true;
+                        let mut files = vec![l0_file.clone()];
+                        for lv_file in level_files {
+                            lv_file.mark_compacting().await;
+                            files.push(lv_file);
                         }
+                        info!("Picker(delta) [{}]: picked level files: [ {files:?} ] to level: {out_level}", self.timestamp);
+                        return Some(CompactReq {
+                            compact_task,
+                            version: version.clone(),
+                            files,
+                            in_level: 0,
+                            out_level,
+                            // One delta-file and overlapped level-files, the out_time_range is
+                            // the time range of the level-files.
+                            out_time_range,
+                            file_id: IDGenerator::new(u64::MAX),
+                        });
                     }
                     // No file in the out-level overlaps with lv0-file, compact lv0-file to advised out-level.
                     if let Some(out_time_range) =
                         l0_file_remained_tr_first.intersect(&lv.time_range)
                     {
+                        *l0_file_compacting = true;
                         return Some(CompactReq {
                             compact_task,
                             version: version.clone(),
-- 
2.43.0


From 9ad68199dc134fe7ede3dab4f7024d48a077c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 46/76] fix: compaction keeps columns which are missing in one
 of the merged blocks

---
 .../compaction/comapcting_block_meta_group.rs | 66 ++++++++++++++++---
 tskv/src/compaction/compact.rs                |  8 +++
 2 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/tskv/src/compaction/comapcting_block_meta_group.rs b/tskv/src/compaction/comapcting_block_meta_group.rs
index 0995bf7..de2fc6f 100644
--- a/tskv/src/compaction/comapcting_block_meta_group.rs
+++ b/tskv/src/compaction/comapcting_block_meta_group.rs
@@ -1,7 +1,8 @@
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_schema::{Schema, SchemaRef};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::StreamExt;
 use models::predicate::domain::TimeRange;
@@ -62,12 +63,23 @@ impl CompactingBlockMetaGroup {
         }
         self.blk_metas.sort_by_key(|a| a.reader_idx());
 
-        let table_schema = self.blk_metas[0].table_schema().context(CommonSnafu {
-            reason: format!(
-                "table schema not found for table {}",
-                self.blk_metas[0].meta().table_name()
-            ),
-        })?;
+        // The newest table schema of the blocks to be merged.
+        let mut table_schema = match &previous_block {
+            Some(blk) => blk.table_schema(),
+            None => self.blk_metas[0].table_schema().context(CommonSnafu {
+                reason: format!(
+                    "table schema not found for table {}",
+                    self.blk_metas[0].meta().table_name()
+                ),
+            })?,
+        };
+        for blk_meta in self.blk_metas.iter() {
+            if let Some(schema) = blk_meta.table_schema() {
+                if schema.schema_version > table_schema.schema_version {
+                    table_schema = schema;
+                }
+            }
+        }
 
         if self.blk_metas.len() == 1
             && !compacting_files[self.blk_metas[0].compacting_file_index()].has_tombstone()
@@ -109,6 +121,7 @@ impl CompactingBlockMetaGroup {
                 metrics.merge_begin();
                 let record_batches = Self::merge_record_batches(
                     vec![decoded_raw_record_batch, record_batch],
+                    &table_schema,
                     max_block_size,
                 )
                 .await?;
@@ -159,7 +172,8 @@ impl CompactingBlockMetaGroup {
             let record_batches = {
                 metrics.merge_begin();
                 let record_batches =
-                    Self::merge_record_batches(record_batches, max_block_size).await?;
+                    Self::merge_record_batches(record_batches, &table_schema, max_block_size)
+                        .await?;
                 metrics.merge_end();
                 record_batches
             };
@@ -180,10 +194,11 @@ impl CompactingBlockMetaGroup {
 
     pub async fn merge_record_batches(
         record_batches: Vec<RecordBatch>,
+        table_schema: &TskvTableSchema,
         block_size: usize,
     ) -> TskvResult<Vec<RecordBatch>> {
         let (adapted_record_batches, target_schema) =
-            Self::schema_adapt_record_batches(record_batches)?;
+            Self::schema_adapt_record_batches(record_batches, table_schema)?;
         let merge_streams = adapted_record_batches
             .into_iter()
             .map(|rb| {
@@ -208,9 +223,10 @@ impl CompactingBlockMetaGroup {
 
     pub fn schema_adapt_record_batches(
         record_batches: Vec<RecordBatch>,
+        table_schema: &TskvTableSchema,
     ) -> TskvResult<(Vec<RecordBatch>, SchemaRef)> {
         let mut potential_error = None;
-        let target_schema = record_batches
+        let newest_schema = record_batches
             .iter()
             .map(|rb| {
                 let schema = rb.schema();
@@ -239,6 +255,7 @@ impl CompactingBlockMetaGroup {
         if let Some(e) = potential_error {
             return Err(e);
         }
+        let target_schema = Self::union_columns(newest_schema, &record_batches, table_schema)?;
         let mut adapted_record_batches = Vec::with_capacity(record_batches.len());
         for record_batch in record_batches {
             let adapted_record_batch =
@@ -248,6 +265,35 @@ impl CompactingBlockMetaGroup {
         Ok((adapted_record_batches, target_schema))
     }
 
+    /// Append columns of the record batches which are missing in the schema but not dropped from the
+    /// table, record batches with the same schema version may have different columns.
+    fn union_columns(
+        schema: SchemaRef,
+        record_batches: &[RecordBatch],
+        table_schema: &TskvTableSchema,
+    ) -> TskvResult<SchemaRef> {
+        let mut fields = schema.fields().to_vec();
+        let mut column_ids = HashSet::with_capacity(fields.len());
+        for field in fields.iter() {
+            column_ids.insert(
+                TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?,
+            );
+        }
+        for record_batch in record_batches {
+            for field in record_batch.schema().fields() {
+                let column_id =
+                    TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?;
+                if table_schema.column_name(column_id).is_some() && column_ids.insert(column_id) {
+                    fields.push(field.clone());
+                }
+            }
+        }
+        Ok(Arc::new(Schema::new_with_metadata(
+            fields,
+            schema.metadata().clone(),
+        )))
+    }
+
     pub fn record_batch_project_schema(
         record_batch: RecordBatch,
         target_schema: SchemaRef,
diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 4c83fcf..53867a3 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -124,6 +124,14 @@ impl CompactingBlock {
         filter_record_batch_by_time_range(record_batch, time_range).context(ArrowSnafu)
     }
 
+    pub fn table_schema(&self) -> TskvTableSchemaRef {
+        match self {
+            CompactingBlock::Decoded { table_schema, .. }
+            | CompactingBlock::Encoded { table_schema, .. }
+            | CompactingBlock::Raw { table_schema, .. } => table_schema.clone(),
+        }
+    }
+
     pub fn len(&self) -> usize {
         match self {
             CompactingBlock::Decoded { record_batch, .. } => record_batch.num_rows(),
-- 
2.43.0


From 1c03a425bc3836b2103d0a60f465b708770eebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 47/76] fix: a chunk whose column groups have different columns
 can be read

---
 tskv/src/reader/iterator.rs | 24 ++++++++++++++++++++++--
 tskv/src/tsm/chunk.rs       | 21 ++++++++++++---------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..f6ac770 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -3,7 +3,7 @@ use std::iter;
 use std::ops::Not;
 use std::sync::Arc;
 
-use arrow::datatypes::{Schema, SchemaRef};
+use arrow::datatypes::{Field, Schema, SchemaRef};
 use datafusion::arrow::array::{
     ArrayBuilder, BooleanBuilder, Float64Builder, Int64Builder, StringBuilder,
     TimestampMicrosecondBuilder, TimestampMillisecondBuilder, TimestampNanosecondBuilder,
@@ -370,6 +370,22 @@ impl SeriesGroupBatchReaderFactory {
                     debug!("Filtered column group nums: {}", cgs.len());
                     metrics.filtered_column_group_nums().add(cgs.len());
 
+                    // Column groups of a chunk may have different columns.
+                    let fields = projection
+                        .iter()
+                        .filter_map(|id| {
+                            cgs.iter()
+                                .rev()
+                                .flat_map(|cg| cg.pages())
+                                .find(|page| page.meta().column.id == *id)
+                                .map(|page| Field::from(&page.meta().column))
+                        })
+                        .collect::<Vec<_>>();
+                    let projected_schema = Arc::new(Schema::new_with_metadata(
+                        fields,
+                        chunk_schema.metadata().clone(),
+                    ));
+
                     let batch_readers = cgs
                         .into_iter()
                         .map(|e| {
@@ -382,7 +398,11 @@ impl SeriesGroupBatchReaderFactory {
                                 batch_size,
                                 self.column_group_reader_metrics_set.clone(),
                             )?;
-                            Ok(Arc::new(column_group_reader) as BatchReaderRef)
+                            Ok(Arc::new(SchemaAlignmenter::new(
+                                Arc::new(column_group_reader),
+                                projected_schema.clone(),
+                                self.schema_align_reader_metrics_set.clone(),
+                            )) as BatchReaderRef)
                         })
                         .collect::<TskvResult<Vec<_>>>()?;
 
diff --git a/tskv/src/tsm/chunk.rs b/tskv/src/tsm/chunk.rs
index b09b774..b7a17cb 100644
--- a/tskv/src/tsm/chunk.rs
+++ b/tskv/src/tsm/chunk.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::sync::Arc;
 
 use arrow_schema::{Field, Schema, SchemaRef};
@@ -132,16 +132,19 @@ impl Chunk {
 
     /// TODO high performance cost
     pub fn schema_with_metadata(&self, meta: HashMap<String, String>) -> SchemaRef {
-        if let Some((_, cg)) = self.column_group().first_key_value() {
-            let fields = cg
-                .pages()
-                .iter()
-                .map(|p| (&p.meta().column).into())
-                .collect::<Vec<Field>>();
-            return Arc::new(Schema::new_with_metadata(fields, meta));
+        // Column groups of the chunk may have different columns.
+        let mut fields: Vec<Field> = Vec::new();
+        let mut column_ids = HashSet::new();
+        for page in self.column_group().values().flat_map(|cg| cg.pages()) {
+            if column_ids.insert(page.meta.column.id) {
+                fields.push((&page.meta.column).into());
+            }
+        }
+        if fields.is_empty() {
+            return Arc::new(Schema::empty());
         }
 
-        Arc::new(Schema::empty())
+        Arc::new(Schema::new_with_metadata(fields, meta))
     }
 }
 
-- 
2.43.0


From 9cc5f4b59235de43ce9a11753df7a18bc8723c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 48/76] fix: writes before a drop or a tag update are not
 replayed over it

Recovering from the log, a write was applied to the schema and the series
left by later commands: writes to a table or column dropped later were lost
with all other rows of the request, series whose tags were updated lost
their rows or were merged with others. Flush before such commands, and
start recovery after them. A refused command is refused again.
---
 tskv/src/index/ts_index.rs | 14 ++++++--
 tskv/src/vnode_store.rs    | 65 +++++++++++++++++++++++++++++++++++---
 2 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 5ddb6aa..87883d2 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -335,16 +335,25 @@ impl TSIndex {
         // Find all matching series ids
         let mut ids = vec![];
         let mut old_keys = vec![];
+        let mut interrupted = vec![];
         for key in matched_series {
             if let Some(sid) = self.get_series_id(key).await? {
                 ids.push(sid);
                 old_keys.push(key.clone());
+                interrupted.push(false);
+            } else if !check_conflict {
+                // recovering an update which was interrupted
+                if let Some(sid) = self.get_tombstone_series_id(key).await? {
+                    ids.push(sid);
+                    old_keys.push(key.clone());
+                    interrupted.push(true);
+                }
             }
         }
 
         let mut new_keys = vec![];
         let mut new_keys_set = HashSet::new();
-        for key in &old_keys {
+        for ((key, sid), interrupted) in old_keys.iter().zip(&ids).zip(interrupted) {
             // modify tag value
             let mut old_tags = key
                 .tags
@@ -369,7 +378,8 @@ impl TSIndex {
                 table: key.table.clone(),
             };
 
-            if check_conflict && self.get_series_id(&new_key).await?.is_some() {
+            let exists = self.get_series_id(&new_key).await?;
+            if exists.is_some() && !(interrupted && exists == Some(*sid)) {
                 trace::warn!("Series already exists: {:?}", new_key);
                 return Err(SeriesAlreadyExistsSnafu {
                     key: key.to_string(),
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 081e3a0..299bbe6 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -21,8 +21,9 @@ use crate::database::Database;
 use crate::error::{IndexErrSnafu, InvalidParamSnafu, InvalidPointTableSnafu, TskvResult};
 use crate::index::ts_index::TSIndex;
 use crate::schema::error::{FieldNotFoundSnafu, TableNotFoundSnafu};
-use crate::tsfamily::summary::Summary;
+use crate::tsfamily::summary::{Summary, SummaryRequest};
 use crate::tsfamily::tseries_family::TseriesFamily;
+use crate::tsfamily::version::VersionEdit;
 use crate::{file_utils, TsKvContext, VnodeSnapshot};
 
 #[derive(Clone)]
@@ -99,11 +100,14 @@ impl VnodeStorage {
             }
 
             raft_write_command::Command::DropTable(cmd) => {
+                self.flush_before(ctx).await?;
                 self.drop_table(&cmd.table).await?;
+                self.checkpoint(ctx).await?;
                 Ok(vec![])
             }
 
             raft_write_command::Command::DropColumn(cmd) => {
+                self.flush_before(ctx).await?;
                 if let Err(err) = self.drop_table_column(&cmd.table, &cmd.column).await {
                     if ctx.apply_type == replication::APPLY_TYPE_WAL {
                         info!("recover: drop column: {}", err);
@@ -111,21 +115,72 @@ impl VnodeStorage {
                         return Err(err);
                     }
                 }
+                self.checkpoint(ctx).await?;
                 Ok(vec![])
             }
 
             raft_write_command::Command::UpdateTags(cmd) => {
-                self.update_tags_value(ctx, &cmd).await?;
+                if let Err(err) = self.update_tags_value(ctx, &cmd).await {
+                    if ctx.apply_type == replication::APPLY_TYPE_WAL {
+                        info!("recover: update tags: {}", err);
+                    } else {
+                        return Err(err);
+                    }
+                }
                 Ok(vec![])
             }
 
             raft_write_command::Command::DeleteFromTable(cmd) => {
-                self.delete_from_table(&cmd).await?;
+                if let Err(err) = self.delete_from_table(&cmd).await {
+                    if ctx.apply_type == replication::APPLY_TYPE_WAL {
+                        info!("recover: delete from table: {}", err);
+                    } else {
+                        return Err(err);
+                    }
+                }
                 Ok(vec![])
             }
         }
     }
 
+    /// Flush everything written before a command which changes the meaning of earlier writes:
+    /// recovering from the log, they would be taken for writes to what the command left.
+    async fn flush_before(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
+        if ctx.apply_type == replication::APPLY_TYPE_WAL {
+            return Ok(());
+        }
+
+        self.flush(true, true, false).await
+    }
+
+    /// Recovering from the log starts after this command.
+    async fn checkpoint(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
+        if ctx.apply_type == replication::APPLY_TYPE_WAL {
+            return Ok(());
+        }
+
+        let mut ts_index = self.ts_index.write().await;
+        ts_index.flush().await.context(IndexErrSnafu)?;
+
+        let owner = self.ts_family.read().await.owner();
+        let request = SummaryRequest {
+            version_edit: VersionEdit::new_update_vnode(self.id, owner.to_string(), ctx.index),
+            ts_family: self.ts_family.clone(),
+            mem_caches: None,
+            file_metas: None,
+        };
+        self.summary
+            .write()
+            .await
+            .apply_version_edit(&request)
+            .await?;
+
+        ts_index
+            .clear_tombstone_series()
+            .await
+            .context(IndexErrSnafu)
+    }
+
     pub async fn get_snapshot(&mut self) -> TskvResult<Option<VnodeSnapshot>> {
         if let Some(snapshot) = self.snapshots.last_mut() {
             snapshot.active_time = now_timestamp_secs();
@@ -478,6 +533,8 @@ impl VnodeStorage {
             return Ok(());
         }
 
+        self.flush_before(ctx).await?;
+
         let series = sids
             .iter()
             .copied()
@@ -499,7 +556,7 @@ impl VnodeStorage {
 
         self.ts_family.read().await.update_tag_value(series).await?;
 
-        Ok(())
+        self.checkpoint(ctx).await
     }
 
     async fn delete_from_table(&self, cmd: &DeleteFromTableRequest) -> TskvResult<()> {
-- 
2.43.0


From ab26f1ebc01e0961acb378a6e08d14d79d6b8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 49/76] fix: a write refused for its column types is not
 applied by a recovery

Nor is a write lost whole because one of its tables was dropped meanwhile.
---
 tskv/src/database.rs       | 17 ++++++++++++++++-
 tskv/src/schema/schemas.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 6aaaa88..9b5bd29 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -216,7 +216,22 @@ impl Database {
             let num_rows = table.num_rows() as usize;
 
             let fb_schema = FbSchema::from_fb_column(table_name, columns)?;
-            let schema = if strict_write {
+            let schema = if recover_from_wal {
+                match self
+                    .schemas
+                    .get_table_schema(fb_schema.table)
+                    .await
+                    .context(SchemaSnafu)?
+                {
+                    Some(schema) => {
+                        // what was refused before is refused again
+                        DBschemas::check_field_type(&fb_schema, &schema).context(SchemaSnafu)?;
+                        schema
+                    }
+                    // the table was dropped after the write, the write's other tables were not
+                    None => continue,
+                }
+            } else if strict_write {
                 self.schemas
                     .get_table_schema(fb_schema.table)
                     .await
diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 4e14ac7..b000f74 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -67,6 +67,36 @@ impl DBschemas {
         Ok(client)
     }
 
+    /// Check that the columns the schema has are of the same types in the write.
+    pub fn check_field_type(
+        fb_schema: &FbSchema<'_>,
+        schema: &TskvTableSchema,
+    ) -> SchemaResult<()> {
+        let tags = fb_schema
+            .tag_names
+            .iter()
+            .map(|name| (name.as_ref(), ColumnType::Tag));
+        let fields = fb_schema
+            .field_names
+            .iter()
+            .zip(fb_schema.field_types.iter())
+            .map(|(name, ty)| (*name, ColumnType::from_proto_field_type(*ty)));
+        for (name, column_type) in tags.chain(fields) {
+            if let Some(column) = schema.column(name) {
+                if !column.column_type.matches_type(&column_type) {
+                    return Err(ColumnTypeSnafu {
+                        column: name.to_string(),
+                        found: column_type,
+                        expected: column.column_type.clone(),
+                    }
+                    .build());
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     #[async_recursion]
     async fn check_field_type_or_else_add_impl<'a>(
         &self,
-- 
2.43.0


From 40ab4601aa5d01a521a6b748d5b62db16adb8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 50/76] fix: a filter over columns a file lacks never drops
 rows that satisfy it

---
 tskv/src/reader/utils.rs | 76 +++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/tskv/src/reader/utils.rs b/tskv/src/reader/utils.rs
index f8dc075..05611f1 100644
--- a/tskv/src/reader/utils.rs
+++ b/tskv/src/reader/utils.rs
@@ -9,10 +9,9 @@ use arrow_array::RecordBatch;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRewriter, TreeNodeVisitor, VisitRecursion};
 use datafusion::error::DataFusionError;
 use datafusion::logical_expr::Operator;
-use datafusion::physical_plan::expressions::{BinaryExpr, Column, Literal};
+use datafusion::physical_plan::expressions::{BinaryExpr, Column};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::PhysicalExpr;
-use datafusion::scalar::ScalarValue;
 use futures::{Stream, StreamExt};
 use models::predicate::domain::TimeRange;
 
@@ -190,10 +189,12 @@ impl Stream for CombinedRecordBatchStream {
 }
 
 /// Re-assign column indices referenced in predicate according to given schema.
-/// If a column is not found in the schema, it will be replaced.
+/// A part with a column that is not in the schema can not be decided, it's
+/// replaced by 'true' where that makes the predicate weaker.
 ///
 /// if we have a file, has [time, c1, c2],
-/// If the filter is 'c3 = 1', then it will be replaced by a expr 'true'.
+/// If the filter is 'c1 = 1 and c3 = 1', then it will be replaced by 'c1 = 1',
+/// and there is no filter left of 'not (c1 = 1 or c3 = 1)'.
 pub fn reassign_predicate_columns(
     pred: Arc<Predicate>,
     file_schema: SchemaRef,
@@ -208,19 +209,42 @@ pub fn reassign_predicate_columns(
         None => Ok(None),
         Some(expr) => {
             let new_expr = expr.clone().rewrite(&mut rewriter)?;
-            let mut vistor = ColumnVistor {
-                part_schema: file_schema,
-                has_col_not_in_file: false,
-            };
-            new_expr.visit(&mut vistor)?;
-            if vistor.has_col_not_in_file {
-                return Ok(None);
-            }
-            Ok(Some(new_expr))
+            decidable_part(&new_expr, &file_schema)
         }
     }
 }
 
+/// The strongest part of a predicate that needs no other columns than the schema's.
+fn decidable_part(
+    expr: &Arc<dyn PhysicalExpr>,
+    part_schema: &SchemaRef,
+) -> TskvResult<Option<Arc<dyn PhysicalExpr>>, DataFusionError> {
+    let mut visitor = ColumnVistor {
+        part_schema: part_schema.clone(),
+        has_col_not_in_file: false,
+    };
+    expr.visit(&mut visitor)?;
+    if !visitor.has_col_not_in_file {
+        return Ok(Some(expr.clone()));
+    }
+
+    if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
+        if matches!(b_expr.op(), Operator::And | Operator::Or) {
+            let left = decidable_part(b_expr.left(), part_schema)?;
+            let right = decidable_part(b_expr.right(), part_schema)?;
+            return Ok(match (left, right) {
+                (Some(left), Some(right)) => {
+                    Some(Arc::new(BinaryExpr::new(left, *b_expr.op(), right)))
+                }
+                (left, right) if matches!(b_expr.op(), Operator::And) => left.or(right),
+                _ => None,
+            });
+        }
+    }
+
+    Ok(None)
+}
+
 struct PredicateColumnsReassigner {
     file_schema: SchemaRef,
     full_schema: SchemaRef,
@@ -268,32 +292,6 @@ impl TreeNodeRewriter for PredicateColumnsReassigner {
                 }
             };
             return Ok(Arc::new(Column::new(column.name(), index)));
-        } else if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
-            let mut visitor = ColumnVistor {
-                part_schema: self.file_schema.clone(),
-                has_col_not_in_file: false,
-            };
-            b_expr.left().visit(&mut visitor)?;
-            let left = visitor.has_col_not_in_file;
-
-            visitor.has_col_not_in_file = false;
-            b_expr.right().visit(&mut visitor)?;
-            let right = visitor.has_col_not_in_file;
-
-            if matches!(b_expr.op(), Operator::And) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    (true, true) => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                    (true, _) => Ok(b_expr.right().clone()),
-                    (_, true) => Ok(b_expr.left().clone()),
-                };
-            }
-            if matches!(b_expr.op(), Operator::Or) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    _ => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                };
-            }
         }
 
         Ok(expr)
-- 
2.43.0


From 0a10b4f1c32b5accbe48588186790b61aa75de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 51/76] fix: a filter sees the rows of overlapping chunks
 merged

---
 tskv/src/reader/iterator.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index f6ac770..a33d28a 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -518,11 +518,19 @@ impl SeriesGroupBatchReaderFactory {
         let readers = grouped_chunks
             .into_iter()
             .map(|chunks| -> TskvResult<BatchReaderRef> {
+                let chunks = chunks.segments();
+                // Values of overlapping chunks replace each other, the rows can
+                // only be filtered once they are merged.
+                let (chunk_predicate, merged_predicate) = if chunks.len() > 1 {
+                    (&None, predicate.as_ref())
+                } else {
+                    (predicate, None)
+                };
                 let chunk_readers = self.build_chunk_readers(
-                    chunks.segments(),
+                    chunks,
                     batch_size,
                     projection,
-                    predicate,
+                    chunk_predicate,
                     metrics,
                     aggregates,
                 )?;
@@ -552,7 +560,14 @@ impl SeriesGroupBatchReaderFactory {
                         Arc::new(CombinedBatchReader::new(chunk_readers))
                     };
 
-                    Ok(reader)
+                    Ok(match merged_predicate {
+                        Some(predicate) => Arc::new(DataFilter::new(
+                            predicate.clone(),
+                            reader,
+                            self.filter_reader_metrics_set.clone(),
+                        )),
+                        None => reader,
+                    })
                 } else {
                     Ok(Arc::new(CombinedBatchReader::new(chunk_readers)))
                 }
-- 
2.43.0


From d1d97f9477951eb8785569dac116c07cfcbdfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 52/76] fix: a vnode restored from a snapshot is what its
 readers see

---
 tskv/src/database.rs    | 10 ++++++++++
 tskv/src/vnode_store.rs | 13 +++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 9b5bd29..413259a 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -185,6 +185,16 @@ impl Database {
         Ok(ts_family)
     }
 
+    pub fn set_tsfamily_index(
+        &mut self,
+        tf_id: VnodeId,
+        ts_family: Arc<RwLock<TseriesFamily>>,
+        ts_index: Arc<RwLock<TSIndex>>,
+    ) {
+        self.ts_families.insert(tf_id, ts_family);
+        self.ts_indexes.insert(tf_id, ts_index);
+    }
+
     pub fn del_tsfamily_index(&mut self, tf_id: u32) {
         self.ts_families.remove(&tf_id);
         self.ts_indexes.remove(&tf_id);
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 299bbe6..0f5fff3 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -260,8 +260,17 @@ impl VnodeStorage {
 
         let ts_index = db_wlock.rebuild_tsfamily_index(ts_family.clone()).await?;
 
-        self.ts_index = ts_index;
-        self.ts_family = ts_family;
+        // Other handles of this vnode share the family and the index, put the
+        // restored ones in their place.
+        std::mem::swap(
+            &mut *self.ts_family.write().await,
+            &mut *ts_family.write().await,
+        );
+        std::mem::swap(
+            &mut *self.ts_index.write().await,
+            &mut *ts_index.write().await,
+        );
+        db_wlock.set_tsfamily_index(self.id, self.ts_family.clone(), self.ts_index.clone());
 
         Ok(())
     }
-- 
2.43.0


From 19d9747e0b1a5e2d60d53d15d88a2bfd89742889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 53/76] fix: a snapshot contains the tombstones of its files

---
 tskv/src/database.rs    |  9 +++++++--
 tskv/src/lib.rs         |  3 +++
 tskv/src/vnode_store.rs | 26 ++++++++++++++++++++++----
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 413259a..4c0dbc9 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -15,7 +15,7 @@ use tokio::sync::RwLock;
 use utils::precision::Precision;
 
 use crate::error::{
-    CommonSnafu, IndexErrSnafu, ModelSnafu, SchemaSnafu, TableNotFoundSnafu, TskvResult,
+    CommonSnafu, IOSnafu, IndexErrSnafu, ModelSnafu, SchemaSnafu, TableNotFoundSnafu, TskvResult,
 };
 use crate::index::ts_index::TSIndex;
 use crate::index::IndexResult;
@@ -28,7 +28,7 @@ use crate::tsfamily::summary::{Summary, SummaryRequest};
 use crate::tsfamily::tseries_family::{TseriesFamily, TsfFactory};
 use crate::tsfamily::version::{Version, VersionEdit};
 use crate::tsm::reader::TsmReader;
-use crate::{TsKvContext, VnodeId};
+use crate::{file_utils, ColumnFileId, TsKvContext, VnodeId};
 
 pub type FlatBufferTable<'a> = flatbuffers::Vector<'a, flatbuffers::ForwardsUOffset<Table<'a>>>;
 
@@ -130,6 +130,7 @@ impl Database {
     pub async fn add_tsfamily(
         &mut self,
         mut ve: VersionEdit,
+        tombstones: &HashMap<ColumnFileId, Vec<u8>>,
         data_dir: &Path,
         summary: Arc<RwLock<Summary>>,
     ) -> TskvResult<Arc<RwLock<TseriesFamily>>> {
@@ -140,6 +141,10 @@ impl Database {
         for f in ve.add_files.iter_mut() {
             let new_file_id = summary.read().await.next_file_id();
             let file_path = f.rename_file(data_dir, new_dir, new_file_id).await?;
+            if let (Some(tombstone), Some(dir)) = (tombstones.get(&f.file_id), file_path.parent()) {
+                let path = file_utils::make_tsm_tombstone_file(dir, new_file_id);
+                std::fs::write(path, tombstone).context(IOSnafu)?;
+            }
 
             let file_reader = TsmReader::open(file_path).await?;
             let bloom_filter = Arc::new(file_reader.footer().series().bloom_filter().clone());
diff --git a/tskv/src/lib.rs b/tskv/src/lib.rs
index cffe4f6..2c3e280 100644
--- a/tskv/src/lib.rs
+++ b/tskv/src/lib.rs
@@ -1,5 +1,6 @@
 #![recursion_limit = "256"]
 
+use std::collections::HashMap;
 use std::fmt::{Debug, Display, Formatter};
 use std::sync::Arc;
 
@@ -151,6 +152,8 @@ pub struct VnodeSnapshot {
     pub last_seq_no: u64,
     pub create_time: String,
     pub version_edit: VersionEdit,
+    // contents of the tombstone files, by the id of the data file
+    pub tombstones: HashMap<ColumnFileId, Vec<u8>>,
 
     //filed version using Option just for compat Serialize, Deserialize
     #[serde(skip_serializing, skip_deserializing)]
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 0f5fff3..a7e3243 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -18,7 +18,9 @@ use utils::precision::Precision;
 use crate::compaction::job::FlushJob;
 use crate::compaction::FlushReq;
 use crate::database::Database;
-use crate::error::{IndexErrSnafu, InvalidParamSnafu, InvalidPointTableSnafu, TskvResult};
+use crate::error::{IOSnafu, IndexErrSnafu, InvalidParamSnafu, InvalidPointTableSnafu, TskvResult};
+use crate::file_system::async_filesystem::LocalFileSystem;
+use crate::file_system::FileSystem;
 use crate::index::ts_index::TSIndex;
 use crate::schema::error::{FieldNotFoundSnafu, TableNotFoundSnafu};
 use crate::tsfamily::summary::{Summary, SummaryRequest};
@@ -195,12 +197,22 @@ impl VnodeStorage {
     pub async fn create_snapshot(&mut self) -> TskvResult<VnodeSnapshot> {
         debug!("Snapshot: create snapshot on vnode: {}", self.id);
 
-        let (snapshot_version, snapshot_ve) = {
+        let (snapshot_version, snapshot_ve, tombstones) = {
+            // No file is added, removed or gets other tombstones meanwhile.
+            let _summary_r = self.summary.read().await;
             let ts_family_w = self.ts_family.write().await;
 
             let version = ts_family_w.version();
             let ve = ts_family_w.build_version_edit();
-            (version, ve)
+            let mut tombstones = HashMap::new();
+            for file in version.levels_info().iter().flat_map(|l| l.files.iter()) {
+                let path = file.tombstone_path();
+                if LocalFileSystem::try_exists(&path) {
+                    let data = std::fs::read(&path).context(IOSnafu)?;
+                    tombstones.insert(file.file_id(), data);
+                }
+            }
+            (version, ve, tombstones)
         };
 
         let last_seq_no = snapshot_version.last_seq();
@@ -209,6 +221,7 @@ impl VnodeStorage {
             vnode_id: self.id,
             node_id: self.ctx.options.storage.node_id,
             version_edit: snapshot_ve,
+            tombstones,
             version: Some(snapshot_version),
             create_time: chrono::Local::now().format("%Y%m%d_%H%M%S_%3f").to_string(),
             active_time: 0,
@@ -255,7 +268,12 @@ impl VnodeStorage {
         let mut version_edit = snapshot.version_edit.clone();
         version_edit.update_vnode_id(self.id);
         let ts_family = db_wlock
-            .add_tsfamily(version_edit, shapshot_dir, self.summary.clone())
+            .add_tsfamily(
+                version_edit,
+                &snapshot.tombstones,
+                shapshot_dir,
+                self.summary.clone(),
+            )
             .await?;
 
         let ts_index = db_wlock.rebuild_tsfamily_index(ts_family.clone()).await?;
-- 
2.43.0


From 7a6fb330a0de552a8437800785d9f24448440ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 54/76] fix: a snapshot knows the lengths its files have now

---
 tskv/src/vnode_store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index a7e3243..3c4e9a8 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -203,7 +203,13 @@ impl VnodeStorage {
             let ts_family_w = self.ts_family.write().await;
 
             let version = ts_family_w.version();
-            let ve = ts_family_w.build_version_edit();
+            let mut ve = ts_family_w.build_version_edit();
+            // A file that got other tag values has another length since.
+            let owner = ts_family_w.owner();
+            for meta in ve.add_files.iter_mut() {
+                let path = meta.file_path(&self.ctx.options.storage, &owner, self.id);
+                meta.file_size = std::fs::metadata(&path).context(IOSnafu)?.len();
+            }
             let mut tombstones = HashMap::new();
             for file in version.levels_info().iter().flat_map(|l| l.files.iter()) {
                 let path = file.tombstone_path();
-- 
2.43.0


From 8f33bc5431a05f9eb3a65847ff2b27ba329ddfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 55/76] fix: an index rebuilt from a snapshot leaves out
 dropped series

---
 tskv/src/index/ts_index.rs          | 11 ++++++++---
 tskv/src/tsfamily/tseries_family.rs |  6 ++++++
 tskv/src/tsm/reader.rs              | 20 ++++++++++++++++++++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 87883d2..4b9b793 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -132,17 +132,22 @@ impl TSIndex {
         id: SeriesId,
         key: &SeriesKey,
     ) -> IndexResult<()> {
+        self.reserve_series_id_for_rebuild(id);
+
         let key_buf = encode_series_key(key.table(), key.tags());
         if self.storage.exist(&key_buf)? {
             return Ok(());
         }
 
+        self.cache.write(id, key.clone());
+        Ok(())
+    }
+
+    /// The id is never given to a new series.
+    pub fn reserve_series_id_for_rebuild(&mut self, id: SeriesId) {
         if self.incr_id.load(Ordering::Relaxed) <= id {
             self.incr_id.store(id + 1, Ordering::Relaxed);
         }
-
-        self.cache.write(id, key.clone());
-        Ok(())
     }
 
     pub async fn add_series_if_not_exists(
diff --git a/tskv/src/tsfamily/tseries_family.rs b/tskv/src/tsfamily/tseries_family.rs
index 2307cfd..ec384e3 100644
--- a/tskv/src/tsfamily/tseries_family.rs
+++ b/tskv/src/tsfamily/tseries_family.rs
@@ -334,6 +334,12 @@ impl TseriesFamily {
             for file in level.files.iter() {
                 let reader = self.version().get_tsm_reader(file.file_path()).await?;
                 for chunk in reader.chunk().values() {
+                    // The series of a dropped table are gone, a table of the
+                    // same name has others.
+                    if reader.is_chunk_deleted(chunk) {
+                        index_w.reserve_series_id_for_rebuild(chunk.series_id());
+                        continue;
+                    }
                     index_w
                         .add_series_for_rebuild(chunk.series_id(), chunk.series_key())
                         .await
diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index 3136b29..cad16ae 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -195,6 +195,26 @@ impl TsmReader {
         self.tsm_meta.clone()
     }
 
+    /// If all rows of the chunk are deleted at once.
+    pub fn is_chunk_deleted(&self, chunk: &Chunk) -> bool {
+        let time_range = chunk.time_range();
+        chunk
+            .column_group()
+            .values()
+            .flat_map(|cg| cg.pages())
+            .find(|page| page.meta().column.column_type.is_time())
+            .map_or(false, |page| {
+                self.tombstone
+                    .get_column_overlapped_time_ranges(
+                        chunk.series_id(),
+                        page.meta().column.id,
+                        time_range,
+                    )
+                    .iter()
+                    .any(|r| r.min_ts <= time_range.min_ts && r.max_ts >= time_range.max_ts)
+            })
+    }
+
     pub fn tombstone(&self) -> Arc<TsmTombstone> {
         self.tombstone.clone()
     }
-- 
2.43.0


From ebed5c407083f7cc8ff6b8e87dd1aca4144b5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 56/76] fix: dropping a user ends its memberships

The member key was made with the tenant's name in place of the cluster's, so
nothing was removed and the user's id stayed a member of every tenant.
---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..706623e 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1310,7 +1310,7 @@ impl StateMachine {
         if let Some(user) = self.get_struct::<UserDesc>(&user_key)? {
             // first delete member of tenant
             for tenant in self.children_data::<Tenant>(&tenants_key)?.into_values() {
-                let member_key = KeyPath::member(tenant.name(), tenant.name(), user.id());
+                let member_key = KeyPath::member(cluster, tenant.name(), user.id());
                 self.remove(&member_key)?;
             }
             self.remove(&user_key)?;
-- 
2.43.0


From 53023ca7ba007c07831bd919e4b1a74766279790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 57/76] fix: members place a bucket on the same nodes

Nodes with as much room were taken in the order of a hash map, which differs
from member to member of the metadata group, so members that applied the same
command stored different placements.
---
 meta/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 706623e..5a69c03 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1174,7 +1174,8 @@ impl StateMachine {
             .filter(|(_, m)| m.is_healthy())
             .collect::<Vec<_>>();
 
-        node_info_list.sort_by_key(|(_, m)| Reverse(m.disk_free));
+        // the nodes come in no order: members must not place by it
+        node_info_list.sort_by_key(|(n, m)| (Reverse(m.disk_free), n.id));
         Ok(node_info_list.into_iter().map(|(n, _)| n).collect())
     }
 
-- 
2.43.0


From 6d592e4f9187821ae9a6859636a99ad8e1b60e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 58/76] fix: nodes that follow a member are told of what a
 snapshot brought it

The change log kept the entries from before the snapshot was installed, so a
follower whose version it still covered was given the later changes and never
those in between. The log starts anew, followers read everything.
---
 meta/src/store/command.rs | 11 +++++++++++
 meta/src/store/storage.rs |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index fc25f74..8d2a8a8 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -275,6 +275,11 @@ impl CircleBuf {
         }
     }
 
+    pub fn clear(&mut self) {
+        self.count = 0;
+        self.writer = 0;
+    }
+
     pub fn is_empty(&self) -> bool {
         if self.count == 0 {
             return true;
@@ -374,6 +379,12 @@ impl Watch {
         let _ = self.sender.send(());
     }
 
+    pub fn clear(&self) {
+        self.logs.write().clear();
+
+        let _ = self.sender.send(());
+    }
+
     pub fn subscribe(&self) -> broadcast::Receiver<()> {
         self.sender.subscribe()
     }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 5a69c03..9685583 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -102,6 +102,9 @@ impl ApplyStorage for StateMachine {
         }
         writer.commit().context(HeedSnafu)?;
 
+        // the changes remembered do not lead up to the restored state
+        self.watch.clear();
+
         Ok(())
     }
 
-- 
2.43.0


From a1a5816bf295d5c25601dea40ee2c632763e0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 59/76] fix: an update of a dropped table does not bring it
 back

UpdateTable stored the schema when the table, or its database, was gone: a
write that adds a column, racing with a drop, left a table that no longer
exists to everybody else. It is refused.
---
 meta/src/store/storage.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 9685583..d655f12 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1139,21 +1139,25 @@ impl StateMachine {
         schema: &TableSchema,
     ) -> MetaResult<()> {
         let key = KeyPath::tenant_schema_name(cluster, tenant, schema.db(), schema.name());
-        if let Some(val) = self.get_struct::<TableSchema>(&key)? {
-            match (val, schema) {
-                (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
-                    if val.schema_version + 1 != schema.schema_version {
-                        return Err(MetaError::UpdateTableConflict {
-                            name: schema.name.clone(),
-                        });
-                    }
-                }
-                _ => {
-                    return Err(MetaError::NotSupport {
-                        msg: "update external table".to_string(),
+        let val = self.get_struct::<TableSchema>(&key)?.ok_or_else(|| {
+            // it was dropped since the caller has seen it
+            MetaError::TableNotFound {
+                table: schema.name().to_string(),
+            }
+        })?;
+        match (val, schema) {
+            (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
+                if val.schema_version + 1 != schema.schema_version {
+                    return Err(MetaError::UpdateTableConflict {
+                        name: schema.name.clone(),
                     });
                 }
             }
+            _ => {
+                return Err(MetaError::NotSupport {
+                    msg: "update external table".to_string(),
+                });
+            }
         }
 
         self.insert(&key, &value_encode(schema)?)?;
-- 
2.43.0


From d1d2cb585971e33940add8522c59679e2c973e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 60/76] fix: a bucket does not overlap the buckets already
 there

After a change of the vnode duration the range of a new bucket could reach into
the range of an older one, so a timestamp belonged to two buckets and which one
took it was up to the order of a hash map. The range ends at its neighbours.
The largest timestamp lies in no range: every write of it made one more bucket.
It is refused.
---
 meta/src/store/storage.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index d655f12..0130c49 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1223,19 +1223,33 @@ impl StateMachine {
             });
         }
 
-        let mut bucket = BucketInfo {
-            id: self.fetch_and_add_incr_id(cluster, 1)?,
-            start_time: 0,
-            end_time: 0,
-            shard_group: vec![],
-        };
-        (bucket.start_time, bucket.end_time) = get_time_range(
+        let (mut start_time, mut end_time) = get_time_range(
             *ts,
             db_schema
                 .options
                 .vnode_duration()
                 .to_precision(*db_schema.config.precision()),
         );
+        // buckets made with another vnode duration may reach into the range
+        for bucket in buckets.values() {
+            if bucket.end_time <= *ts {
+                start_time = start_time.max(bucket.end_time);
+            } else {
+                end_time = end_time.min(bucket.start_time);
+            }
+        }
+        if *ts >= end_time {
+            return Err(MetaError::NotSupport {
+                msg: format!("create bucket of timestamp {ts}"),
+            });
+        }
+
+        let mut bucket = BucketInfo {
+            id: self.fetch_and_add_incr_id(cluster, 1)?,
+            start_time,
+            end_time,
+            shard_group: vec![],
+        };
         let (group, used) = allocation_replication_set(
             node_list,
             db_schema.options.shard_num() as u32,
-- 
2.43.0


From 50a0e0aa2715d19cf2af342a3c718daf817278a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 61/76] fix: a bucket without a node to be placed on is refused

With a replica number of 0 the check for enough nodes passed without any node
and the placement then took one, which panicked every member that applied the
command.
---
 meta/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 0130c49..25ba92a 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1209,7 +1209,8 @@ impl StateMachine {
         let node_list = self.get_valid_node_list(cluster)?;
         let node_list = ping_servers(&node_list).await;
 
-        check_node_enough(db_schema.options.replica(), &node_list)?;
+        // one replica is placed even when none is asked for
+        check_node_enough(db_schema.options.replica().max(1), &node_list)?;
 
         if db_schema.options.shard_num() == 0 {
             return Err(MetaError::DatabaseSchemaInvalid {
-- 
2.43.0


From 28c9a091f7a1a6aefcc69ceeae2e26b0b510cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 62/76] fix: a snapshot that could not be restored is not
 applied

---
 replication/src/node_store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index 55fa87e..f5fd8bd 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -171,6 +171,9 @@ impl NodeStorage {
     async fn apply_snapshot(&self, snap: StoredSnapshot) -> ReplicationResult<()> {
         info!("node-{} apply snapshot  meta {:?}", self.id, snap.meta);
 
+        // The data comes first: a snapshot that could not be restored is not applied.
+        self.engine.write().await.restore(&snap.data).await?;
+
         let group_id = self.group_id();
         let log_id = snap.meta.last_log_id.unwrap_or_default();
         let membership = snap.meta.last_membership;
@@ -178,8 +181,6 @@ impl NodeStorage {
         self.state.set_last_membership(group_id, membership)?;
         self.state.set_snapshot_applied_log(group_id, log_id)?;
 
-        self.engine.write().await.restore(&snap.data).await?;
-
         Ok(())
     }
     pub async fn sync_wal_writer(&self) {
-- 
2.43.0


From 570a266e8dab690512bbef127f0906d3cda8530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 63/76] fix: a restart keeps the log entries that are not
 applied yet

---
 tskv/src/wal/wal_store.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..7c480f9 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -8,7 +8,7 @@ use snafu::IntoError;
 use trace::{error, info};
 
 use super::reader::WalRecordData;
-use crate::error::{DecodeSnafu, WalTruncatedSnafu};
+use crate::error::DecodeSnafu;
 use crate::file_system::async_filesystem::LocalFileSystem;
 use crate::file_system::FileSystem;
 use crate::vnode_store::VnodeStorage;
@@ -60,12 +60,6 @@ impl RaftEntryStorage {
             self.inner.max_sequence(),
         );
 
-        if let Some(apply_id) = apply_id {
-            self.del_after(apply_id.index + 1)
-                .await
-                .map_err(|_| WalTruncatedSnafu.build())?;
-        }
-
         Ok(())
     }
 }
@@ -512,16 +506,6 @@ impl RaftEntryStorageInner {
                     }
                 }
             }
-
-            if entry.log_id.index > apply_id.index {
-                info!(
-                    "truncate wal file: {}, start at: {} from sequence:{}, got entry index: {}",
-                    wal_id, record.pos, apply_id.index, entry.log_id.index
-                );
-                self.wal.truncate_wal_file(wal_id, record.pos).await?;
-
-                return Ok(());
-            }
         }
 
         self.mark_write_wal(entry, wal_id, record.pos).await?;
-- 
2.43.0


From a69908aa919bd335595146e49fe52198f251deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 64/76] fix: the last log entry is found when none is cached

---
 tskv/src/wal/wal_store.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 7c480f9..17c5e46 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -372,9 +372,13 @@ impl RaftEntryStorageInner {
 
     async fn wal_last_entry(&mut self) -> ReplicationResult<Option<RaftEntry>> {
         if let Some(entry) = self.entry_cache.last() {
-            Ok(Some(entry.clone()))
-        } else {
-            Ok(None)
+            return Ok(Some(entry.clone()));
+        }
+
+        // The cache holds the newest entries only, all of them may be deleted.
+        match self.max_sequence() {
+            u64::MAX => Ok(None),
+            index => self.read_raft_entry(index).await,
         }
     }
 
-- 
2.43.0


From d5248586e62e346bb78539d931ea84230757115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 65/76] fix: a snapshot keeps its log id when the entry is
 purged

---
 replication/src/node_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index f5fd8bd..226e4f9 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -133,6 +133,12 @@ impl NodeStorage {
         let last_membership = self.get_snapshot_membership(index)?;
         let snapshot_id = self.get_snapshot_id(&last_log_id)?;
 
+        // The entry may be purged while the snapshot is still in use.
+        if let Some(log_id) = last_log_id {
+            self.state
+                .set_snapshot_applied_log(self.group_id(), log_id)?;
+        }
+
         let _ = self.state.clear_memberships(self.group_id(), index);
 
         Ok(SnapshotMeta {
-- 
2.43.0


From 2cc879be8e427fcb75c29098d6b2e1afcfa991b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 66/76] fix: a truncated log file is read anew

---
 tskv/src/wal/wal_store.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 17c5e46..e1ce1e0 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -313,6 +313,7 @@ impl RaftEntryStorageInner {
         }
 
         let mut delete_file_ids = vec![];
+        let mut truncated_file_id = None;
         for item in self.files_meta.iter_mut().rev() {
             if item.min_seq >= seq_no {
                 delete_file_ids.push(item.file_id);
@@ -323,6 +324,7 @@ impl RaftEntryStorageInner {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
                     let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    truncated_file_id = Some(item.file_id);
                 }
             }
 
@@ -338,6 +340,17 @@ impl RaftEntryStorageInner {
             .await
             .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
 
+        // What the reader of the truncated file has buffered is no longer in the file.
+        if let Some(item) = self.files_meta.last_mut() {
+            if truncated_file_id == Some(item.file_id) {
+                item.reader = self
+                    .wal
+                    .wal_reader(item.file_id)
+                    .await
+                    .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From eca4bd91e7e0693739a782999583d05339593a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 67/76] fix: a record file may end within a record header

---
 tskv/src/record_file/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..c8511a0 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -190,10 +190,16 @@ impl Reader {
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
+            if magic_number_sli.len() < RECORD_MAGIC_NUMBER_LEN {
+                return Err(TskvError::Eof);
+            }
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
                 let pos = self.pos;
                 let header = self.read_buf(RECORD_HEADER_LEN).await?;
+                if header.len() < RECORD_HEADER_LEN {
+                    return Err(TskvError::Eof);
+                }
                 return Ok((pos, header));
             } else {
                 self.set_pos(self.pos + 1).await?;
-- 
2.43.0


From 69dc3eba2faad6647fb40cbae1d84592e02c8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 68/76] fix: a torn end of the log is cut off before the log
 goes on

---
 tskv/src/wal/wal_store.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index e1ce1e0..18ba2d8 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -455,11 +455,13 @@ impl RaftEntryStorageInner {
             }
 
             let mut record_reader = self.wal.wal_reader(wal_id).await?;
+            let mut valid_pos = record_reader.pos();
             loop {
                 let begin_pos = record_reader.pos();
                 let wal_record = record_reader.next_wal_entry().await;
                 match wal_record {
                     Ok(Some(record)) => {
+                        valid_pos = record_reader.pos();
                         let res = self
                             .recover_record(wal_id, record, apply_id, vnode_store)
                             .await;
@@ -484,11 +486,17 @@ impl RaftEntryStorageInner {
                     }
 
                     Err(TskvError::Eof) | Ok(None) => {
+                        // What follows the last record was never written completely,
+                        // the next record must not be appended behind it.
+                        self.wal.truncate_wal_file(wal_id, valid_pos).await?;
                         break;
                     }
 
                     Err(err) => {
                         info!("recover wal {}, read entry failed: {}", file_name, err);
+                        if !matches!(err, TskvError::WalTruncated { .. }) {
+                            valid_pos = record_reader.pos();
+                        }
                         continue;
                     }
                 }
-- 
2.43.0


From 0fef8a8583dee4d3d9064d69180a38d48df7869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 69/76] fix: a record file has no footer once it is cut off

---
 tskv/src/record_file/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 3d8c488..77cb155 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -65,7 +65,7 @@ impl Writer {
             Ok(Writer {
                 path: path.to_path_buf(),
                 file,
-                footer,
+                footer: None,
             })
         }
     }
-- 
2.43.0


From fd9f569c2bda160db2cbad5085fd3fa82c775c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 70/76] fix: a record file whose last record was written in
 part is opened

---
 tskv/src/record_file/reader.rs |  2 +-
 tskv/src/record_file/writer.rs |  4 +++-
 tskv/src/tsfamily/summary.rs   | 26 ++++++++++++++++++--
 tskv/src/tsm/tombstone.rs      | 44 ++++++++++++++++++++++------------
 tskv/src/version_set.rs        |  2 +-
 5 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index c8511a0..e4db819 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -104,7 +104,7 @@ impl Reader {
         let file_len = file.len();
         let records_len = if footer_pos == file_len as u64 {
             // If there is no footer
-            file_len - FILE_MAGIC_NUMBER_LEN
+            file_len.saturating_sub(FILE_MAGIC_NUMBER_LEN)
         } else {
             file_len - FILE_FOOTER_LEN - FILE_MAGIC_NUMBER_LEN
         };
diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 77cb155..36fea02 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -29,7 +29,9 @@ impl Writer {
             .open_file_writer(path, buf_size)
             .await
             .map_err(|e| TskvError::FileSystemError { source: e })?;
-        if file.is_empty() {
+        if file.len() < FILE_MAGIC_NUMBER_LEN {
+            // The file magic number may have been written in part.
+            file.truncate(0).await.context(IOSnafu)?;
             // For new file, write file magic number, next write is at 4.
             file.write(&FILE_MAGIC_NUMBER.to_be_bytes())
                 .await
diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..2716a73 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -39,9 +39,15 @@ impl Summary {
         ctx: Arc<TsKvContext>,
         summary_file: impl AsRef<std::path::Path>,
     ) -> TskvResult<Self> {
-        let mut writer = Writer::open(summary_file, SUMMARY_BUFFER_SIZE).await?;
+        let mut writer = Writer::open(&summary_file, SUMMARY_BUFFER_SIZE).await?;
         writer.sync().await?;
 
+        // The next edit must not be appended behind an edit that was written in part.
+        let valid_pos = Self::last_record_end(summary_file).await?;
+        if valid_pos < writer.file_size() {
+            writer.truncate(valid_pos).await?;
+        }
+
         Ok(Self {
             ctx,
             tsf_id,
@@ -50,6 +56,21 @@ impl Summary {
         })
     }
 
+    async fn last_record_end(summary_file: impl AsRef<std::path::Path>) -> TskvResult<u64> {
+        let mut reader = Reader::open(summary_file).await?;
+        let mut end = reader.pos() as u64;
+        loop {
+            match reader.read_record().await {
+                Ok(_) => end = reader.pos() as u64,
+                Err(TskvError::Eof) | Err(TskvError::RecordFileInvalidDataSize { .. }) => break,
+                Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
+                Err(e) => return Err(e),
+            }
+        }
+
+        Ok(end)
+    }
+
     /// Recover Version from summary file
     pub async fn recover(&self, db_schema: &DatabaseSchema) -> TskvResult<Option<Version>> {
         let summary_file = file_utils::make_tsfamily_summary_file(
@@ -74,7 +95,8 @@ impl Summary {
                         tsf_edits.push(ed);
                     }
                 }
-                Err(TskvError::Eof) => break,
+                // The last edit may have been written in part, then it has never been applied.
+                Err(TskvError::Eof) | Err(TskvError::RecordFileInvalidDataSize { .. }) => break,
                 Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
                 Err(e) => {
                     return Err(e);
diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 23be5d4..0dcfdb1 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -84,19 +84,19 @@ pub struct TsmTombstone {
 impl TsmTombstone {
     pub async fn open(path: impl AsRef<Path>, tsm_file_id: ColumnFileId) -> TskvResult<Self> {
         let path = file_utils::make_tsm_tombstone_file(path, tsm_file_id);
-        let (mut reader, writer) = if LocalFileSystem::try_exists(&path) {
-            (
-                Some(record_file::Reader::open(&path).await?),
-                Some(record_file::Writer::open(&path, TOMBSTONE_BUFFER_SIZE).await?),
-            )
-        } else {
-            (None, None)
-        };
-        let cache = if let Some(r) = reader.as_mut() {
-            TsmTombstoneCache::load_from(r, false).await?
-        } else {
-            TsmTombstoneCache::default()
-        };
+        let mut writer = None;
+        let mut cache = TsmTombstoneCache::default();
+        if LocalFileSystem::try_exists(&path) {
+            let mut reader = record_file::Reader::open(&path).await?;
+            let valid_pos;
+            (cache, valid_pos) = TsmTombstoneCache::load_records(&mut reader, false).await?;
+            let mut record_writer = record_file::Writer::open(&path, TOMBSTONE_BUFFER_SIZE).await?;
+            // The next record must not be appended behind a record that was written in part.
+            if valid_pos < record_writer.file_size() {
+                record_writer.truncate(valid_pos).await?;
+            }
+            writer = Some(record_writer);
+        }
 
         Ok(Self {
             cache: RwLock::new(cache),
@@ -566,6 +566,16 @@ impl TsmTombstoneCache {
         reader: &mut record_file::Reader,
         just_stop_if_error: bool,
     ) -> TskvResult<Self> {
+        let (cache, _) = Self::load_records(reader, just_stop_if_error).await?;
+        Ok(cache)
+    }
+
+    /// Load tombstones from a record file, also returns where the last record ends.
+    async fn load_records(
+        reader: &mut record_file::Reader,
+        just_stop_if_error: bool,
+    ) -> TskvResult<(Self, u64)> {
+        let mut valid_pos = reader.pos() as u64;
         let mut column_excluded: HashMap<(SeriesId, ColumnId), TimeRanges> = HashMap::new();
         let mut column_excluded_size = 0_usize;
         let mut all_excluded = TimeRanges::empty();
@@ -574,6 +584,8 @@ impl TsmTombstoneCache {
             let record = match reader.read_record().await {
                 Ok(r) => r,
                 Err(TskvError::Eof) => break,
+                // The last record was written in part.
+                Err(TskvError::RecordFileInvalidDataSize { .. }) => break,
                 Err(e) => {
                     if just_stop_if_error {
                         error!("Invalid tombstone record: {e}");
@@ -584,6 +596,7 @@ impl TsmTombstoneCache {
                 }
             };
 
+            valid_pos = reader.pos() as u64;
             buffer.clear();
             if record.data_type == RecordDataType::TombstoneV1 as u8 {
                 // In version v1, each record only contains one tombstone.
@@ -618,11 +631,12 @@ impl TsmTombstoneCache {
             }
         }
 
-        Ok(Self {
+        let cache = Self {
             column_excluded,
             column_excluded_size,
             all_excluded,
-        })
+        };
+        Ok((cache, valid_pos))
     }
 
     pub async fn save_to(&self, writer: &mut record_file::Writer) -> TskvResult<()> {
diff --git a/tskv/src/version_set.rs b/tskv/src/version_set.rs
index b86cbc3..7e5fc29 100644
--- a/tskv/src/version_set.rs
+++ b/tskv/src/version_set.rs
@@ -91,7 +91,7 @@ pub async fn split_to_tsfamily(
                     data.push(ed);
                 }
             }
-            Err(TskvError::Eof) => break,
+            Err(TskvError::Eof) | Err(TskvError::RecordFileInvalidDataSize { .. }) => break,
             Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
             Err(e) => {
                 return Err(e);
-- 
2.43.0


From 49abd93c0c339182d4d9199b39f2b71de7de56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 71/76] fix: a series is removed from the index as a whole

---
 tskv/src/index/engine2.rs  | 29 ++++++++++++++++++++
 tskv/src/index/ts_index.rs | 56 ++++++++++++++++++++++++--------------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index 5059810..3577e57 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -101,6 +101,35 @@ impl IndexEngine2 {
         Ok(())
     }
 
+    pub fn txn_delete(&self, key: &[u8], writer: &mut heed::RwTxn) -> IndexResult<()> {
+        self.db
+            .delete(writer, key)
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+        Ok(())
+    }
+
+    pub fn txn_remove_from_rb(
+        &self,
+        key: &[u8],
+        id: u32,
+        writer: &mut heed::RwTxn,
+    ) -> IndexResult<()> {
+        let mut rb = match self
+            .db
+            .get(writer, key)
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?
+        {
+            Some(data) => RoaringBitmap::deserialize_from(data).context(RoaringBitmapSnafu)?,
+            None => RoaringBitmap::new(),
+        };
+        rb.remove(id);
+
+        let mut bytes = vec![];
+        rb.serialize_into(&mut bytes)
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+        self.txn_write(key, &bytes, writer)
+    }
+
     pub fn set(&self, key: &[u8], value: &[u8]) -> IndexResult<()> {
         let mut writer = self.writer_txn()?;
         self.db
diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 4b9b793..f1cc3f2 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -15,7 +15,7 @@ use trace::info;
 
 use super::cache::IndexCache;
 use super::engine2::IndexEngine2;
-use super::{DecodeSeriesKeySnafu, IndexResult};
+use super::{DecodeSeriesKeySnafu, IndexResult, IndexStorageSnafu};
 use crate::error::{ColumnNotFoundSnafu, IndexErrSnafu};
 use crate::index::{IndexEngine, SeriesAlreadyExistsSnafu};
 use crate::{byte_utils, TskvError, UpdateSetValue};
@@ -214,16 +214,6 @@ impl TSIndex {
         Ok(None)
     }
 
-    async fn add_tombstone_series(
-        &mut self,
-        id: SeriesId,
-        series_key: &SeriesKey,
-    ) -> IndexResult<()> {
-        let key_buf = encode_tombstone_series_key(series_key.table(), series_key.tags());
-        trace::debug!("Index add tombstone id:{}, key: {}", id, series_key);
-        self.storage.set(&key_buf, &id.to_be_bytes())
-    }
-
     pub async fn clear_tombstone_series(&mut self) -> IndexResult<()> {
         trace::info!("Index clear all tombstone");
         self.storage.del_prefix(TOMBSTONE_PREFIX.as_bytes())
@@ -243,26 +233,51 @@ impl TSIndex {
     }
 
     pub async fn del_series_info(&mut self, sid: u32) -> IndexResult<()> {
+        self.remove_series(sid, None).await?;
+
+        let _ = self.check_to_flush(false).await;
+
+        Ok(())
+    }
+
+    /// Remove a series, and leave a tombstone of `tombstone` if it is given, all at once.
+    async fn remove_series(
+        &mut self,
+        sid: SeriesId,
+        tombstone: Option<&SeriesKey>,
+    ) -> IndexResult<()> {
         let series_key = self.get_series_key(sid).await?;
-        let _ = self.storage.delete(&encode_series_id_key(sid));
-        if let Some(series_key) = series_key {
-            self.cache.del(sid, &series_key);
+
+        let mut writer = self.storage.writer_txn()?;
+        self.storage
+            .txn_delete(&encode_series_id_key(sid), &mut writer)?;
+        if let Some(series_key) = &series_key {
             let key_buf = encode_series_key(series_key.table(), series_key.tags());
-            let _ = self.storage.delete(&key_buf);
+            self.storage.txn_delete(&key_buf, &mut writer)?;
             for tag in series_key.tags() {
                 let key = encode_inverted_index_key(series_key.table(), &tag.key, &tag.value);
-                self.storage.modify(&key, sid, false)?;
+                self.storage.txn_remove_from_rb(&key, sid, &mut writer)?;
             }
             if series_key.tags().is_empty() {
                 let key = encode_inverted_index_key(series_key.table(), &[], &[]);
-                self.storage.modify(&key, sid, false)?;
+                self.storage.txn_remove_from_rb(&key, sid, &mut writer)?;
             }
+        }
+        if let Some(key) = tombstone {
+            trace::debug!("Index add tombstone id:{}, key: {}", sid, key);
+            let key_buf = encode_tombstone_series_key(key.table(), key.tags());
+            self.storage
+                .txn_write(&key_buf, &sid.to_be_bytes(), &mut writer)?;
+        }
+        writer
+            .commit()
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
 
+        if let Some(series_key) = series_key {
+            self.cache.del(sid, &series_key);
             trace::debug!("Index delete series id:{}, key: {}", sid, series_key);
         }
 
-        let _ = self.check_to_flush(false).await;
-
         Ok(())
     }
 
@@ -285,8 +300,7 @@ impl TSIndex {
                 old_series,
                 new_series
             );
-            self.del_series_info(*sid).await?;
-            self.add_tombstone_series(*sid, old_series).await?;
+            self.remove_series(*sid, Some(old_series)).await?;
 
             self.cache.write(*sid, new_series.clone());
 
-- 
2.43.0


From 9718373254bdd67e9d995c4e2aa3c7703791e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 72/76] fix: a tag update does not leave a data file without
 meta data

---
 tskv/src/tsfamily/column_file.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tskv/src/tsfamily/column_file.rs b/tskv/src/tsfamily/column_file.rs
index 4dc9674..d6b2f57 100644
--- a/tskv/src/tsfamily/column_file.rs
+++ b/tskv/src/tsfamily/column_file.rs
@@ -13,13 +13,13 @@ use trace::{debug, error, info};
 use utils::BloomFilter;
 
 use super::version::CompactMeta;
-use crate::error::{FileSystemSnafu, TskvResult};
+use crate::error::{FileSystemSnafu, IOSnafu, TskvResult};
 use crate::file_system::async_filesystem::{LocalFileSystem, LocalFileType};
 use crate::file_system::FileSystem;
 use crate::tsm::reader::TsmReader;
 use crate::tsm::tombstone::tombstone_compact_tmp_path;
 use crate::tsm::writer::TsmWriter;
-use crate::{tsm, ColumnFileId, LevelId};
+use crate::{file_utils, tsm, ColumnFileId, LevelId};
 
 #[derive(Debug)]
 pub struct ColumnFile {
@@ -165,19 +165,26 @@ impl ColumnFile {
             return Ok(None);
         };
         meta.update_tag_value(series)?;
+        // The file must not be left without meta data, write them to a copy of it.
+        let tmp_path = self.path.with_extension("update.tmp");
+        LocalFileSystem::remove_if_exists(&tmp_path).context(FileSystemSnafu)?;
+        tokio::fs::copy(&self.path, &tmp_path)
+            .await
+            .context(IOSnafu)?;
         let local_file_system = LocalFileSystem::new(LocalFileType::ThreadPool);
         let writer = local_file_system
-            .open_file_writer(&self.path, 1024)
+            .open_file_writer(&tmp_path, 1024)
             .await
             .context(FileSystemSnafu)?;
         TsmWriter::update_file_meta_data(
             self.file_id,
-            self.path.clone(),
+            tmp_path.clone(),
             writer,
             meta,
             encode_tsm_meta,
         )
         .await?;
+        file_utils::rename(&tmp_path, &self.path).await?;
         Ok(Some(self.path.clone()))
     }
 }
-- 
2.43.0


From 128a8bda66497c42771a2358ebee92f44bcb5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 73/76] fix: the id of a removed series is not given anew

---
 tskv/src/index/ts_index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index f1cc3f2..f46e79d 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -268,6 +268,10 @@ impl TSIndex {
             let key_buf = encode_tombstone_series_key(key.table(), key.tags());
             self.storage
                 .txn_write(&key_buf, &sid.to_be_bytes(), &mut writer)?;
+            // The id of the tombstone must not be given to another series.
+            let id_bytes = self.incr_id.load(Ordering::Relaxed).to_be_bytes();
+            self.storage
+                .txn_write(AUTO_INCR_ID_KEY.as_bytes(), &id_bytes, &mut writer)?;
         }
         writer
             .commit()
-- 
2.43.0


From fec32447309a1d611669fc5b0ec5b2783696a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 74/76] fix: recovery starts after a tag update or drop that
 was replayed

---
 tskv/src/vnode_store.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 3c4e9a8..dccea56 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -102,14 +102,14 @@ impl VnodeStorage {
             }
 
             raft_write_command::Command::DropTable(cmd) => {
-                self.flush_before(ctx).await?;
+                self.flush_before().await?;
                 self.drop_table(&cmd.table).await?;
                 self.checkpoint(ctx).await?;
                 Ok(vec![])
             }
 
             raft_write_command::Command::DropColumn(cmd) => {
-                self.flush_before(ctx).await?;
+                self.flush_before().await?;
                 if let Err(err) = self.drop_table_column(&cmd.table, &cmd.column).await {
                     if ctx.apply_type == replication::APPLY_TYPE_WAL {
                         info!("recover: drop column: {}", err);
@@ -147,20 +147,12 @@ impl VnodeStorage {
 
     /// Flush everything written before a command which changes the meaning of earlier writes:
     /// recovering from the log, they would be taken for writes to what the command left.
-    async fn flush_before(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
-        if ctx.apply_type == replication::APPLY_TYPE_WAL {
-            return Ok(());
-        }
-
+    async fn flush_before(&self) -> TskvResult<()> {
         self.flush(true, true, false).await
     }
 
     /// Recovering from the log starts after this command.
     async fn checkpoint(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
-        if ctx.apply_type == replication::APPLY_TYPE_WAL {
-            return Ok(());
-        }
-
         let mut ts_index = self.ts_index.write().await;
         ts_index.flush().await.context(IndexErrSnafu)?;
 
@@ -566,7 +558,7 @@ impl VnodeStorage {
             return Ok(());
         }
 
-        self.flush_before(ctx).await?;
+        self.flush_before().await?;
 
         let series = sids
             .iter()
-- 
2.43.0


From 358b8d0564c1324eed3d6f07392e8e6bfcf6748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 75/76] fix: an interrupted tag update is gone on with, others
 are not taken for it

---
 tskv/src/compaction/job.rs |  7 ------
 tskv/src/database.rs       | 14 ------------
 tskv/src/index/ts_index.rs | 12 ++++++++++
 tskv/src/vnode_store.rs    | 45 +++++++++++++++++++++++++-------------
 4 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 60ab266..38daef5 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -390,13 +390,6 @@ impl FlushJob {
             return Err(err);
         }
 
-        let _ = request
-            .ts_index
-            .write()
-            .await
-            .clear_tombstone_series()
-            .await;
-
         request.flush_metrics.write().await.flush_use_time = instant.elapsed().as_millis() as u64;
 
         let flush_metrics = request.flush_metrics.read().await;
diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 4c0dbc9..83078e1 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -267,7 +267,6 @@ impl Database {
                 &schema,
                 num_rows,
                 ts_index.clone(),
-                recover_from_wal,
             )
             .await?;
             // every row produces a sid
@@ -320,7 +319,6 @@ impl Database {
         table_column: &TskvTableSchema,
         row_num: usize,
         ts_index: Arc<RwLock<TSIndex>>,
-        recover_from_wal: bool,
     ) -> TskvResult<Vec<(u32, SeriesKey)>> {
         let mut res_sids = Vec::with_capacity(row_num);
         let mut series_keys = Vec::with_capacity(row_num);
@@ -343,18 +341,6 @@ impl Database {
                 continue;
             }
 
-            if recover_from_wal {
-                if let Some(id) = ts_index_r
-                    .get_tombstone_series_id(&series_key)
-                    .await
-                    .context(IndexErrSnafu)?
-                {
-                    // 仅在 recover wal的时候有用
-                    res_sids.push(Some((id, series_key)));
-                    continue;
-                }
-            }
-
             res_sids.push(None);
             series_keys.push(series_key);
         }
diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index f46e79d..a549b5e 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -24,6 +24,7 @@ const SERIES_ID_PREFIX: &str = "_id_";
 const SERIES_KEY_PREFIX: &str = "_key_";
 const TOMBSTONE_PREFIX: &str = "_tomb_";
 const AUTO_INCR_ID_KEY: &str = "_auto_incr_id";
+const UPDATE_INDEX_KEY: &str = "_update_index";
 
 /// Used to maintain forward and inverted indexes
 ///
@@ -219,6 +220,17 @@ impl TSIndex {
         self.storage.del_prefix(TOMBSTONE_PREFIX.as_bytes())
     }
 
+    /// Begin the tag update of a log entry: the tombstones of other updates do not concern it.
+    pub async fn begin_update(&mut self, log_index: u64) -> IndexResult<()> {
+        let log_index = log_index.to_be_bytes();
+        if self.storage.get(UPDATE_INDEX_KEY.as_bytes())?.as_deref() == Some(&log_index[..]) {
+            return Ok(());
+        }
+
+        self.clear_tombstone_series().await?;
+        self.storage.set(UPDATE_INDEX_KEY.as_bytes(), &log_index)
+    }
+
     pub async fn get_tombstone_series_id(
         &self,
         series_key: &SeriesKey,
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index dccea56..53dfff8 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -102,14 +102,14 @@ impl VnodeStorage {
             }
 
             raft_write_command::Command::DropTable(cmd) => {
-                self.flush_before().await?;
+                self.flush_before(ctx).await?;
                 self.drop_table(&cmd.table).await?;
                 self.checkpoint(ctx).await?;
                 Ok(vec![])
             }
 
             raft_write_command::Command::DropColumn(cmd) => {
-                self.flush_before().await?;
+                self.flush_before(ctx).await?;
                 if let Err(err) = self.drop_table_column(&cmd.table, &cmd.column).await {
                     if ctx.apply_type == replication::APPLY_TYPE_WAL {
                         info!("recover: drop column: {}", err);
@@ -147,32 +147,38 @@ impl VnodeStorage {
 
     /// Flush everything written before a command which changes the meaning of earlier writes:
     /// recovering from the log, they would be taken for writes to what the command left.
-    async fn flush_before(&self) -> TskvResult<()> {
-        self.flush(true, true, false).await
+    async fn flush_before(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
+        if self.ts_family.read().await.version().last_seq() + 1 >= ctx.index {
+            return Ok(());
+        }
+
+        self.flush(true, true, false).await?;
+        self.recover_after(ctx.index - 1).await
     }
 
     /// Recovering from the log starts after this command.
     async fn checkpoint(&self, ctx: &replication::ApplyContext) -> TskvResult<()> {
         let mut ts_index = self.ts_index.write().await;
         ts_index.flush().await.context(IndexErrSnafu)?;
+        self.recover_after(ctx.index).await?;
+
+        ts_index
+            .clear_tombstone_series()
+            .await
+            .context(IndexErrSnafu)
+    }
 
+    /// Recovering from the log starts after the entry of this index.
+    async fn recover_after(&self, index: u64) -> TskvResult<()> {
         let owner = self.ts_family.read().await.owner();
         let request = SummaryRequest {
-            version_edit: VersionEdit::new_update_vnode(self.id, owner.to_string(), ctx.index),
+            version_edit: VersionEdit::new_update_vnode(self.id, owner.to_string(), index),
             ts_family: self.ts_family.clone(),
             mem_caches: None,
             file_metas: None,
         };
-        self.summary
-            .write()
-            .await
-            .apply_version_edit(&request)
-            .await?;
 
-        ts_index
-            .clear_tombstone_series()
-            .await
-            .context(IndexErrSnafu)
+        self.summary.write().await.apply_version_edit(&request).await
     }
 
     pub async fn get_snapshot(&mut self) -> TskvResult<Option<VnodeSnapshot>> {
@@ -540,6 +546,15 @@ impl VnodeStorage {
             series.push(ss);
         }
 
+        if !cmd.dry_run {
+            self.ts_index
+                .write()
+                .await
+                .begin_update(ctx.index)
+                .await
+                .context(IndexErrSnafu)?;
+        }
+
         // 准备数据
         // 获取待更新的 series key，更新后的 series key 及其对应的 series id
         let mut check_conflict = true;
@@ -558,7 +573,7 @@ impl VnodeStorage {
             return Ok(());
         }
 
-        self.flush_before().await?;
+        self.flush_before(ctx).await?;
 
         let series = sids
             .iter()
-- 
2.43.0


From ae18a1cb857a1797e05c8fa991b1b2e0116c0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 76/76] fix: compacted tombstones are not appended to those of
 an interrupted compaction

---
 tskv/src/tsm/tombstone.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 0dcfdb1..7a89889 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -35,11 +35,12 @@ use std::sync::Arc;
 use models::predicate::domain::{TimeRange, TimeRanges};
 use models::{ColumnId, SeriesId};
 use parking_lot::RwLock;
+use snafu::ResultExt;
 use tokio::sync::Mutex as AsyncMutex;
 use trace::{debug, error};
 use utils::BloomFilter;
 
-use crate::error::{InvalidFileNameSnafu, TombstoneSnafu};
+use crate::error::{FileSystemSnafu, InvalidFileNameSnafu, TombstoneSnafu};
 use crate::file_system::async_filesystem::LocalFileSystem;
 use crate::file_system::FileSystem;
 use crate::record_file::{self, RecordDataType, RecordDataVersion};
@@ -283,6 +284,8 @@ impl TsmTombstone {
         time_range: TimeRange,
     ) -> TskvResult<TimeRanges> {
         let tmp_path = tombstone_compact_tmp_path(&self.path)?;
+        // What an interrupted compaction has left is of no use.
+        LocalFileSystem::remove_if_exists(&tmp_path).context(FileSystemSnafu)?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
         let mut cache = self.cache.write().clone();
         cache.insert(TombstoneField::All, time_range);
-- 
2.43.0

