From 73e154d9915ebd48a4ef0eb797faad69e688c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 01/40] fix: reject getResources without arguments instead of
 panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..90b1d3f 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let Some(path) = args.first() else {
+            return Err(invalid_params("missing resource path"));
+        };
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 589bc559648382d393f0eedff537363f3a3ad172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 02/40] fix: keep the whole sequence number of DAP messages

A `seq` that does not fit into 32 bits was truncated, so that the response
named another request.
---
 crates/sync-lsp/src/msg.rs            | 13 +++++++++++++
 crates/sync-lsp/src/server.rs         |  6 +-----
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..df79fc4 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -22,6 +22,7 @@ impl RequestId {
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
             IdRepr::I32(it) => it as i64,
+            IdRepr::I64(it) => it,
             IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
         }
     }
@@ -31,6 +32,8 @@ impl RequestId {
 #[serde(untagged)]
 enum IdRepr {
     I32(i32),
+    /// An integer that doesn't fit into `I32`, e.g. a large `seq` of the DAP.
+    I64(i64),
     String(String),
 }
 
@@ -40,6 +43,15 @@ impl From<i32> for RequestId {
     }
 }
 
+impl From<i64> for RequestId {
+    fn from(id: i64) -> RequestId {
+        RequestId(match i32::try_from(id) {
+            Ok(id) => IdRepr::I32(id),
+            Err(_) => IdRepr::I64(id),
+        })
+    }
+}
+
 impl From<String> for RequestId {
     fn from(id: String) -> RequestId {
         RequestId(IdRepr::String(id))
@@ -50,6 +62,7 @@ impl fmt::Display for RequestId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.0 {
             IdRepr::I32(it) => fmt::Display::fmt(it, f),
+            IdRepr::I64(it) => fmt::Display::fmt(it, f),
             // Use debug here, to make it clear that `92` and `"92"` are
             // different, and to reduce WTF factor if the sever uses `" "` as an
             // ID.
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 90b1d3f..f33ddd2 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -275,11 +275,7 @@ impl LspClient {
     #[cfg(feature = "dap")]
     pub fn complete_dap_request<S: Any>(&self, service: &mut S, response: dap::Response) {
         let mut req_queue = self.req_queue.lock();
-        let Some(handler) = req_queue
-            .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
-        else {
+        let Some(handler) = req_queue.outgoing.complete(response.request_seq.into()) else {
             log::warn!("received response for unknown request");
             return;
         };
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..6cecc7f 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = req.seq.into();
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From 25c1c66f55c5b9b7d89c6633026383fb6d53099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 03/40] fix: don't trust the Content-Length of a message

A large length panicked or aborted the process while allocating the buffer.
---
 crates/sync-lsp/src/msg.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index df79fc4..8cd324a 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -243,9 +243,12 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
         }
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
-    let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The header may claim any size: only allocate for the bytes that arrive.
+    let mut buf = Vec::new();
+    inp.take(size as u64).read_to_end(&mut buf)?;
+    if buf.len() < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From 28b8504b258015110960ca445e09231687ebf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 04/40] fix: report malformed fingerprints instead of panicking

---
 crates/tinymist-std/src/hash.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..5d65d41 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::*;
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +89,23 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        fn decode(s: &[u8]) -> Option<u64> {
+            let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(s)
+                .ok()?;
+            if bytes.len() > 8 {
+                return None;
+            }
+            bytes.resize(8, 0);
+            Some(u64::from_le_bytes(bytes.try_into().ok()?))
+        }
+
+        let pair = s
+            .as_bytes()
+            .split_at_checked(11)
+            .and_then(|(lo, hi)| Some((decode(lo)?, decode(hi)?)));
+        let (lo, hi) =
+            pair.ok_or_else(|| error_once!("invalid fingerprint", text: s.to_owned()))?;
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From 6f1f9bb31c4dd1f378429f4bf57e1773445c7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 05/40] fix: keep the text after the placeholders of translated
 messages

---
 crates/tinymist-l10n/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..719f949 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -236,8 +236,13 @@ pub fn t_with_args(
     let message_iter = &mut message.chars();
     while let Some(c) = message_iter.next() {
         if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
+            let mut closed = false;
+            let arg_index_str = message_iter
+                .take_while(|c| {
+                    closed = *c == '}';
+                    !closed
+                })
+                .collect::<String>();
 
             let Some(arg) = args
                 .iter()
@@ -246,6 +251,9 @@ pub fn t_with_args(
             else {
                 result.push(c);
                 result.push_str(&arg_index_str);
+                if closed {
+                    result.push('}');
+                }
                 continue;
             };
 
-- 
2.43.0


From fefc4a58e9b9e39f5d1d45584887f8a7b1b5cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 06/40] fix: report malformed translations instead of panicking

---
 crates/tinymist-l10n/src/lib.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 719f949..74177d5 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -1,6 +1,5 @@
 //! Tinymist's localization library.
 
-use core::panic;
 use std::{
     borrow::Cow,
     collections::HashSet,
@@ -52,16 +51,18 @@ pub fn set_locale(locale: &str) -> Option<()> {
 /// Loads a TOML string into a map of translations.
 pub fn load_translations(input: &str) -> anyhow::Result<TranslationMapSet> {
     let mut translations = deserialize(input, false)?;
-    translations.par_iter_mut().for_each(|(_, v)| {
-        v.par_iter_mut().for_each(|(_, v)| {
+    translations.par_iter_mut().try_for_each(|(_, v)| {
+        v.par_iter_mut().try_for_each(|(_, v)| -> anyhow::Result<()> {
             if !v.starts_with('"') {
-                return;
+                return Ok(());
             }
 
-            *v = serde_json::from_str::<String>(v)
-                .unwrap_or_else(|e| panic!("cannot parse translation message: {e}, message: {v}"));
-        });
-    });
+            *v = serde_json::from_str::<String>(v).map_err(|e| {
+                anyhow::anyhow!("cannot parse translation message: {e}, message: {v}")
+            })?;
+            Ok(())
+        })
+    })?;
 
     Ok(translations)
 }
@@ -283,7 +284,10 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
 
     for line in lines {
         if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+            let table = line.strip_prefix('[').and_then(|l| l.strip_suffix(']'));
+            key = table
+                .ok_or_else(|| anyhow::anyhow!("cannot parse the translation key: {line}"))?
+                .to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From ffd1cffd940031801e1704485d77f56541cbb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 07/40] fix: make the messages of the keys used twice
 independent of the scheduling

---
 crates/tinymist-l10n/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 74177d5..d55cc18 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -72,7 +72,9 @@ pub fn update_disk_translations(
     mut key_values: Vec<(String, String)>,
     output: &Path,
 ) -> anyhow::Result<()> {
-    key_values.sort_by(|(key_x, _), (key_y, _)| key_x.cmp(key_y));
+    // The pairs are collected in parallel, so the messages are also compared to
+    // have a stable result when a key is used by several calls.
+    key_values.sort();
 
     // Reads and parses existing translations
     let mut translations = match std::fs::read_to_string(output) {
-- 
2.43.0


From d681abccc7aa323495d2e9c4f80375e08d6e42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 08/40] fix: look up and register fast fingerprints at once

---
 crates/tinymist-std/src/hash.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index 5d65d41..31c71ec 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -236,14 +236,17 @@ impl FingerprintBuilder {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
+        // Looks up and inserts at once, otherwise two threads could take the same
+        // fingerprint for different data.
+        let prev_featured_data = self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone());
 
         if *prev_featured_data == *featured_data {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
+        drop(prev_featured_data);
 
         let (fingerprint, _featured_data) = s.finish_fingerprint();
         fingerprint
@@ -255,14 +258,17 @@ impl FingerprintBuilder {
         item.type_id().hash(&mut s);
         item.hash(&mut s);
         let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
+        // Looks up and inserts at once, otherwise two threads could take the same
+        // fingerprint for different data.
+        let prev_featured_data = self
+            .fast_conflict_checker
+            .entry(fingerprint)
+            .or_insert_with(|| featured_data.clone());
 
         if *prev_featured_data == *featured_data {
             return Fingerprint::from_pair(fingerprint as u64, 0);
         }
+        drop(prev_featured_data);
 
         let (fingerprint, featured_data) = s.finish_fingerprint();
         let Some(prev_featured_data) = self.conflict_checker.get(&fingerprint) else {
-- 
2.43.0


From 71aa4810dfbb5a69cf1bfabd9e9a83b756de5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 09/40] fix: keep the null results of responses

---
 crates/sync-lsp/src/lsp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/sync-lsp/src/lsp.rs b/crates/sync-lsp/src/lsp.rs
index be8332e..db14115 100644
--- a/crates/sync-lsp/src/lsp.rs
+++ b/crates/sync-lsp/src/lsp.rs
@@ -56,12 +56,22 @@ pub struct Response {
     // to decode the request's id. Ignore this special case
     // and just die horribly.
     pub id: RequestId,
+    // An explicit null is a result, too.
+    #[serde(default, deserialize_with = "deserialize_some")]
     #[serde(skip_serializing_if = "Option::is_none")]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<ResponseError>,
 }
 
+/// Deserializes a field that is present, also if it is null.
+fn deserialize_some<'de, D>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    serde_json::Value::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct Notification {
     pub method: String,
-- 
2.43.0


From 8915eed2a71bdffbfddaa133c445ffbcd3eb3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 10/40] fix: report the end of input inside a message header

---
 crates/sync-lsp/src/msg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 8cd324a..7bcc1dd 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -221,11 +221,17 @@ pub(crate) enum LspOrDapResponse {
 pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
     let mut size = None;
     let mut buf = String::new();
+    let mut in_header = false;
     loop {
         buf.clear();
         if inp.read_line(&mut buf)? == 0 {
+            // The input may only end between two messages.
+            if in_header {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             return Ok(None);
         }
+        in_header = true;
         if !buf.ends_with("\r\n") {
             return Err(invalid_data_fmt!("malformed header: {buf:?}"));
         }
-- 
2.43.0


From 69454f10ccf76880aee9602182c6d4bd789a779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 11/40] fix: wait for the writer when the reader has failed

---
 crates/sync-lsp/src/transport.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 4a7cc4a..d032c1a 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -172,14 +172,17 @@ pub struct IoThreads {
 impl IoThreads {
     /// Waits for the reader and writer threads to finish.
     pub fn join(self) -> io::Result<()> {
-        match self.reader.join() {
+        let reader = self.reader.join();
+        // Waits for the remaining output even if the input has failed.
+        let writer = self.writer.join();
+        match reader {
             Ok(r) => r?,
             Err(err) => {
                 eprintln!("reader panicked!");
                 std::panic::panic_any(err)
             }
         }
-        match self.writer.join() {
+        match writer {
             Ok(r) => r,
             Err(err) => {
                 eprintln!("writer panicked!");
-- 
2.43.0


From 4bc7722f18060586ad7359e1a345925bf82a07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 12/40] fix: accept every shard count of fingerprint maps

---
 crates/tinymist-std/src/adt/fmap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..38a639a 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,9 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        // Limits the size first: the next power of two of a larger one may not exist.
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From 172ab1065a6368281ba73a9114b250f222c1ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 13/40] fix: don't compute relative paths that lead elsewhere

---
 crates/tinymist-std/src/path.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..a39c2e5 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -55,8 +55,9 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
     // Because of <https://github.com/Manishearth/pathdiff/issues/8>, we have to clean the path
     // before diff.
     fn clean_for_diff(p: &Path) -> Cow<'_, Path> {
-        if p.components()
-            .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
+        if p.as_os_str().is_empty()
+            || p.components()
+                .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
             Cow::Owned(p.clean())
         } else {
@@ -64,7 +65,21 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
         }
     }
 
-    pathdiff::diff_paths(clean_for_diff(fr).as_ref(), clean_for_diff(to).as_ref())
+    fn leading_parents(p: &Path) -> usize {
+        let is_parent = |c: &Component| matches!(c, Component::ParentDir);
+        p.components().take_while(is_parent).count()
+    }
+
+    let fr = clean_for_diff(fr);
+    let to = clean_for_diff(to);
+
+    // There is no way back by name into the directories that only one of them
+    // leaves, but `pathdiff` goes up further if nothing else is left.
+    if fr.is_relative() && to.is_relative() && leading_parents(&to) > leading_parents(&fr) {
+        return None;
+    }
+
+    pathdiff::diff_paths(fr.as_ref(), to.as_ref())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6eba2a9354d38914c3cd27417c793c055426d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 14/40] fix: keep the unclosed braces of translated messages

---
 crates/tinymist-l10n/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index d55cc18..8841421 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -249,7 +249,7 @@ pub fn t_with_args(
 
             let Some(arg) = args
                 .iter()
-                .find(|(k, _)| k == &arg_index_str)
+                .find(|(k, _)| closed && k == &arg_index_str)
                 .map(|(_, v)| v)
             else {
                 result.push(c);
-- 
2.43.0


From d7fe550341831baeb7a77a8841367c874a9e1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 15/40] fix: don't lose the permissions of atomically written
 files

---
 crates/tinymist-std/src/fs/paths.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 0c43b6a..b654c71 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -192,16 +192,21 @@ pub fn write_atomic<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Res
     // defaults to an initial mode of 0o600, and we'll set the proper
     // permissions after creating the file.
     #[cfg(unix)]
-    let perms = path.metadata().ok().map(|meta| {
-        use std::os::unix::fs::PermissionsExt;
+    let perms = match path.metadata() {
+        Ok(meta) => {
+            use std::os::unix::fs::PermissionsExt;
 
-        // these constants are u16 on macOS
-        #[allow(clippy::useless_conversion)]
-        let mask = u32::from(libc::S_IRWXU | libc::S_IRWXG | libc::S_IRWXO);
-        let mode = meta.permissions().mode() & mask;
+            // these constants are u16 on macOS
+            #[allow(clippy::useless_conversion)]
+            let mask = u32::from(libc::S_IRWXU | libc::S_IRWXG | libc::S_IRWXO);
+            let mode = meta.permissions().mode() & mask;
 
-        std::fs::Permissions::from_mode(mode)
-    });
+            Some(std::fs::Permissions::from_mode(mode))
+        }
+        Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+        // The file may be there: don't replace it by one with other permissions.
+        Err(e) => return Err(e.into()),
+    };
 
     let mut tmp = TempFileBuilder::new()
         .prefix(path.file_name().unwrap())
-- 
2.43.0


From bbf8c2e43529dde9a8c78797ee3b0ea606cb976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 16/40] fix: don't change the permissions of the targets of
 removed links

---
 crates/tinymist-std/src/fs/paths.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index b654c71..ceeb2f1 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -494,6 +494,10 @@ where
 }
 
 fn set_not_readonly(p: &Path) -> io::Result<bool> {
+    // The permissions are those of the target, which stays.
+    if p.symlink_metadata()?.is_symlink() {
+        return Ok(false);
+    }
     let mut perms = p.metadata()?.permissions();
     if !perms.readonly() {
         return Ok(false);
-- 
2.43.0


From 70827bffd6960cc107f8fdbf84f8d8030bcc84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 17/40] fix: don't write through the destination when linking
 files

When the destination could not be looked at, or was linked by somebody else
meanwhile, the fallback copied the source through it: onto the target of a
link, or onto the source itself, which was truncated.
---
 crates/tinymist-std/src/fs/paths.rs | 36 +++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index ceeb2f1..10d2ec9 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -529,16 +529,34 @@ pub fn link_or_copy(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> Result<()>
 
 fn _link_or_copy(src: &Path, dst: &Path) -> Result<()> {
     log::debug!("linking {} to {}", src.display(), dst.display());
-    if same_file::is_same_file(src, dst).unwrap_or(false) {
+    let is_same = match same_file::is_same_file(src, dst) {
+        Ok(is_same) => is_same,
+        // They may still be the same if they can't be opened.
+        Err(_) => match (src.canonicalize(), dst.canonicalize()) {
+            (Ok(src), Ok(dst)) => src == dst,
+            (Ok(_), Err(e)) if e.kind() == io::ErrorKind::NotFound => false,
+            (Err(e), _) | (_, Err(e)) => {
+                return Err(anyhow::Error::from(e)).with_context(|| {
+                    format!("failed to link `{}` to `{}`", src.display(), dst.display())
+                })
+            }
+        },
+    };
+    if is_same {
         return Ok(());
     }
 
     // NB: we can't use dst.exists(), as if dst is a broken symlink,
     // dst.exists() will return false. This is problematic, as we still need to
-    // unlink dst in this case. symlink_metadata(dst).is_ok() will tell us
-    // whether dst exists *without* following symlinks, which is what we want.
-    if fs::symlink_metadata(dst).is_ok() {
-        remove_file(dst)?;
+    // unlink dst in this case. symlink_metadata(dst) will tell us whether dst
+    // exists *without* following symlinks, which is what we want.
+    match fs::symlink_metadata(dst) {
+        Ok(_) => remove_file(dst)?,
+        Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+        Err(e) => {
+            return Err(anyhow::Error::from(e))
+                .with_context(|| format!("failed to load metadata of path `{}`", dst.display()))
+        }
     }
 
     let link_result = if src.is_dir() {
@@ -593,6 +611,14 @@ fn _link_or_copy(src: &Path, dst: &Path) -> Result<()> {
     };
     link_result
         .or_else(|err| {
+            // Somebody else has linked it meanwhile. Don't copy, because that
+            // would write through the link.
+            if err.kind() == io::ErrorKind::AlreadyExists {
+                return match same_file::is_same_file(src, dst) {
+                    Ok(true) => Ok(()),
+                    _ => Err(err),
+                };
+            }
             log::debug!("link failed {err}. falling back to fs::copy");
             fs::copy(src, dst).map(|_| ())
         })
-- 
2.43.0


From bbc32aacf798990414b13a417c56f153d8ea6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 18/40] fix: report the files in the way of new directories

---
 crates/tinymist-std/src/fs/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 10d2ec9..02dcff0 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -704,7 +704,7 @@ pub fn create_dir_all_excluded_from_backups_atomic(p: impl AsRef<Path>) -> Resul
     // directory (which didn't exist a moment earlier) exists we can infer from
     // it's another cargo process doing work.
     if let Err(e) = fs::rename(tempdir.path(), path) {
-        if !path.exists() {
+        if !path.is_dir() {
             return Err(anyhow::Error::from(e))
                 .with_context(|| format!("failed to create directory `{}`", path.display()));
         }
-- 
2.43.0


From 2fb8b43bfd75c15f4e7994035338ffc9f4d96d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 19/40] fix: make a new revision when files nobody has read are
 notified or unshadowed

The access model changes, so snapshots of the current revision must not
share what is read from now on.
---
 crates/tinymist-vfs/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..96ebbd2 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -503,6 +503,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
         for path in self.am().inner.inner.file_paths() {
+            self.view_changed = true;
             self.invalidate_path(&path);
         }
         for fid in self.am().file_paths() {
@@ -566,6 +567,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        self.view_changed |= !event.is_empty();
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From fc1a109c306d392ce79365c821cf42a2b870d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 20/40] fix: don't share contents that are still being read
 with the next revision

A thread reading a file in an old snapshot could fill the entry of the
new revision with the old content, which no change invalidated.
---
 crates/tinymist-vfs/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 96ebbd2..9ec271b 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,11 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        // The snapshots of this revision may still be reading files. The contents they
+        // get are not those of the next revision, so don't share the pending entries.
+        // The path of a file is recorded before its entry is filled, so the paths must
+        // be cloned after the entries.
+        let managed = self.managed.lock().clone_loaded();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -594,6 +598,18 @@ struct EntryMap {
 }
 
 impl EntryMap {
+    /// Clones the map without the entries that are not loaded yet.
+    fn clone_loaded(&self) -> Self {
+        let mut entries = self.entries.clone();
+        for (id, entry) in self.entries.iter() {
+            if entry.bytes.get().is_none() {
+                entries.remove_mut(id);
+            }
+        }
+
+        Self { entries }
+    }
+
     /// Read a slot.
     #[inline(always)]
     fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
-- 
2.43.0


From 8d210527dc0bde3710a8f49e57bca0d5507254a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 21/40] fix: count files as changed when it is unknown whether
 they did

---
 crates/tinymist-vfs/src/lib.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 9ec271b..7a1d4ec 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -363,17 +363,19 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
 
     /// Reads a file.
     pub fn read(&self, fid: TypstFileId) -> FileResult<Bytes> {
-        let bytes = self.managed.lock().slot(fid, |entry| entry.bytes.clone());
+        let bytes = self
+            .managed
+            .lock()
+            .slot(fid, self.revision, |entry| entry.bytes.clone());
 
         self.read_content(&bytes, fid).clone()
     }
 
     /// Reads a source.
     pub fn source(&self, file_id: TypstFileId) -> FileResult<Source> {
-        let (bytes, source) = self
-            .managed
-            .lock()
-            .slot(file_id, |entry| (entry.bytes.clone(), entry.source.clone()));
+        let (bytes, source) = self.managed.lock().slot(file_id, self.revision, |entry| {
+            (entry.bytes.clone(), entry.source.clone())
+        });
 
         let source = source.get_or_init(|| {
             let content = self
@@ -497,7 +499,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     fn invalidate_file_id(&mut self, file_id: TypstFileId) {
         self.view_changed = true;
-        self.managed.slot(file_id, |e| {
+        self.managed.slot(file_id, self.goal_revision, |e| {
             e.changed_at = self.goal_revision.get();
             e.bytes = Arc::default();
             e.source = Arc::default();
@@ -610,13 +612,22 @@ impl EntryMap {
         Self { entries }
     }
 
-    /// Read a slot.
+    /// Read a slot. It is unknown whether a file without a slot has changed since
+    /// an earlier revision, so it counts as changed at the given revision.
     #[inline(always)]
-    fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
+    fn slot<T>(
+        &mut self,
+        path: TypstFileId,
+        rev: NonZeroUsize,
+        f: impl FnOnce(&mut VfsEntry) -> T,
+    ) -> T {
         if let Some(entry) = self.entries.get_mut(&path) {
             f(entry)
         } else {
-            let mut entry = VfsEntry::default();
+            let mut entry = VfsEntry {
+                changed_at: rev.get(),
+                ..VfsEntry::default()
+            };
             let res = f(&mut entry);
             self.entries.insert_mut(path, entry);
             res
-- 
2.43.0


From 6e6fce2f16847b5b8f03275624d20885a03ab8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 22/40] fix: give a workspace one id however its root is
 written

---
 crates/tinymist-vfs/src/path_mapper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..e4b04f4 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -182,7 +182,11 @@ impl WorkspaceResolver {
             return id;
         }
 
+        // The same root may be given in another form.
         let root = ImmutPath::from(root.clean());
+        if let Some(&id) = interner.to_id.get(&root) {
+            return id;
+        }
 
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
-- 
2.43.0


From af6ea45431dc76ee687c98b04aadb942839bd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 23/40] fix: don't panic at packages named like workspaces

---
 crates/tinymist-vfs/src/path_mapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index e4b04f4..dd61c58 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -129,7 +129,9 @@ impl WorkspaceId {
         }
 
         let num = name[1..].parse().ok()?;
-        Some(WorkspaceId(num))
+        // Documents can name any package, and thus workspaces that don't exist.
+        let exists = usize::from(num) < INTERNER.read().from_id.len();
+        exists.then_some(WorkspaceId(num))
     }
 }
 
-- 
2.43.0


From ba01bed73a18cf538683495e94c2d3c058c96b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 24/40] fix: tell about files that are really emptied or
 removed

---
 crates/tinymist-project/src/watch.rs | 60 ++++++++++++----------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..8c42396 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -37,10 +37,7 @@ enum WatchState {
     Stable,
     /// The file is empty or removed, but there is a chance that the file is not
     /// stable. So we need to recheck the file after a while.
-    EmptyOrRemoval {
-        recheck_at: usize,
-        payload: FileSnapshot,
-    },
+    EmptyOrRemoval { recheck_at: usize },
 }
 
 /// By default, the state is stable.
@@ -64,7 +61,7 @@ struct WatchedEntry {
     seen: bool,
     /// The state of the entry.
     state: WatchState,
-    /// Previous content of the file.
+    /// Previous content of the file, as the consumer knows it.
     prev: Option<FileSnapshot>,
 }
 
@@ -373,7 +370,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             // current content is ok
             (None, ..) | (Some(Err(..)), Ok(..)) => {}
             // Meet some error currently
-            (Some(it), Err(err)) => match &mut entry.state {
+            (Some(it), Err(err)) => match entry.state {
                 // If the file is stable, check whether the editor is removing
                 // or truncating the file. They are possibly flushing the file
                 // but not finished yet.
@@ -381,9 +378,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -401,17 +396,15 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 }
 
                 // Very complicated case of check error sequence, so we simplify
-                // a bit, we regard any subsequent error as the same error.
-                WatchState::EmptyOrRemoval { payload, .. } => {
-                    // update payload
-                    *payload = file;
-                    return None;
-                }
+                // a bit, we regard any subsequent error as the same error. The
+                // file is read again when it is rechecked.
+                WatchState::EmptyOrRemoval { .. } => return None,
             },
             // Compare content for transitional the state
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
@@ -423,9 +416,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -474,29 +465,28 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         let entry = self.watched_entries.get_mut(&event.path)?;
 
         // Check the state of the entry
-        match std::mem::take(&mut entry.state) {
-            // If the entry is stable, we do nothing
-            WatchState::Stable => {}
+        match entry.state {
             // If the entry is not stable, and no other event is produced after
-            // this event, we send the event to the consumer.
-            WatchState::EmptyOrRemoval {
-                recheck_at,
-                payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
-
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+            // this event, we send what the file really is to the consumer.
+            WatchState::EmptyOrRemoval { recheck_at } if recheck_at == event.at_logical_tick => {
+                let file = FileSnapshot::from(self.inner.content(&event.path));
+                log::debug!("notify event real happened {event:?}, state: {file:?}");
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
-
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
+                entry.state = WatchState::Stable;
+                if Some(&file) == entry.prev.as_ref() {
+                    return None;
                 }
+                entry.prev = Some(file.clone());
+
+                // Send the underlying change to the consumer
+                let mut changeset = FileChangeSet::default();
+                changeset.inserts.push((event.path, file));
+
+                (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
             }
+            // If the entry is stable, or about to be rechecked for another
+            // event, we do nothing
+            WatchState::Stable | WatchState::EmptyOrRemoval { .. } => {}
         };
 
         Some(())
-- 
2.43.0


From f26c9a81138d200ca1e6bbb2399e321d7d5571b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 25/40] fix: link the file that a symlink leads to

---
 crates/tinymist-std/src/fs/paths.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 02dcff0..77d60cb 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -607,7 +607,9 @@ fn _link_or_copy(src: &Path, dst: &Path) -> Result<()> {
             |_| Ok(()),
         )
     } else {
-        fs::hard_link(src, dst)
+        // Link the file that a symlink leads to: a link to the symlink itself
+        // would resolve a relative target from another directory.
+        src.canonicalize().and_then(|src| fs::hard_link(src, dst))
     };
     link_result
         .or_else(|err| {
-- 
2.43.0


From 49fc892bf4116440ea6570c48fa020591372174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 26/40] fix: don't panic at interrupts of settled projects

---
 crates/tinymist-project/src/compiler.rs | 28 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..227334c 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,17 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            // It may be settled before the interrupt is processed.
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From 63d7357ee7e8d839e28c7d49cc5ef946f9cdf637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 27/40] fix: apply delayed memory events in order

---
 crates/tinymist-project/src/compiler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 227334c..a1998e8 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -527,6 +527,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     }
 
     fn process_inner(&mut self, intr: Interrupt<F>) {
+        // Increase the logical tick per interrupt.
+        self.logical_tick += 1;
+
         match intr {
             Interrupt::Compile(id) => {
                 let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
-- 
2.43.0


From ce1cfad3764441176548944a4c0fe8aad1445230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 28/40] fix: don't take compilations of a removed project for
 those of its successor

---
 crates/tinymist-project/src/compiler.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index a1998e8..4753197 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -380,6 +380,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
     /// The project file dependencies.
     deps: ProjectDeps,
+    /// The greatest revision of the removed dedicate projects.
+    removed_revision: usize,
 }
 
 impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCompiler<F, Ext> {
@@ -413,6 +415,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -473,7 +476,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
     /// Clear all dedicate projects.
     pub fn clear_dedicates(&mut self) {
-        self.dedicates.clear();
+        for proj in self.dedicates.drain(..) {
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
+        }
     }
 
     /// Restart a dedicate project.
@@ -494,6 +499,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+        // Continues the revisions, because compilations of a removed project may
+        // still be running.
+        proj.committed_revision = self.removed_revision;
+        proj.verse.revision = proj.verse.revision.saturating_add(self.removed_revision);
         self.dedicates.push(proj);
 
         Ok(id)
@@ -506,7 +515,8 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
             // todo: kill compilations
 
             let res = self
-- 
2.43.0


From 01cbd1d9c03c4981dc7498788fb07d2f6ef4dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 29/40] fix: keep watching files when others are invalidated

---
 crates/tinymist-project/src/watch.rs | 104 ++++++++++++++-------------
 1 file changed, 56 insertions(+), 48 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 8c42396..232f398 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -203,8 +203,12 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
-        // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        // Update watches of invalidated files. The other files are still depended
+        // on.
+        let mut changeset = FileChangeSet::default();
+        for path in event.invalidates.iter() {
+            self.update_watch(path, &mut changeset);
+        }
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -230,52 +234,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Also check whether the file is updated since there is a window
         // between unwatch the file and watch the file again.
         paths.dependencies(&mut |path| {
-            let mut contained = false;
-            // Update or insert the entry with the new lifetime.
-            let entry = self
-                .watched_entries
-                .entry(path.clone())
-                .and_modify(|watch_entry| {
-                    contained = true;
-                    watch_entry.lifetime = self.lifetime;
-                })
-                .or_insert_with(|| WatchedEntry {
-                    lifetime: self.lifetime,
-                    watching: false,
-                    seen: false,
-                    state: WatchState::Stable,
-                    prev: None,
-                });
-
-            if entry.seen {
-                return;
-            }
-            entry.seen = true;
-
-            // Update in-memory metadata for now.
-            let meta = path.metadata().map_err(|e| FileError::from_io(e, path));
-
-            if let Some((watcher, _)) = &mut self.watcher {
-                // Case1. meta = Err(..) We cannot get the metadata successfully, so we
-                // are okay to ignore this file for watching.
-                //
-                // Case2. meta = Ok(..) Watch the file if it's not watched.
-                if meta
-                    .as_ref()
-                    .is_ok_and(|meta| !meta.is_dir() && (!contained || !entry.watching))
-                {
-                    log::debug!("watching {path:?}");
-                    entry.watching = log_notify_error(
-                        watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
-                        "failed to watch",
-                    )
-                    .is_some();
-                }
-
-                changeset.may_insert(self.notify_entry_update(path.clone()));
-            } else {
-                let watched = self.inner.content(path);
-                changeset.inserts.push((path.clone(), watched.into()));
+            if !self.watched_entries.get(path).is_some_and(|it| it.seen) {
+                self.update_watch(path, &mut changeset);
             }
         });
 
@@ -301,6 +261,54 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         (!changeset.is_empty()).then_some(changeset)
     }
 
+    /// Update the watch of a file.
+    fn update_watch(&mut self, path: &ImmutPath, changeset: &mut FileChangeSet) {
+        let mut contained = false;
+        // Update or insert the entry with the new lifetime.
+        let entry = self
+            .watched_entries
+            .entry(path.clone())
+            .and_modify(|watch_entry| {
+                contained = true;
+                watch_entry.lifetime = self.lifetime;
+            })
+            .or_insert_with(|| WatchedEntry {
+                lifetime: self.lifetime,
+                watching: false,
+                seen: false,
+                state: WatchState::Stable,
+                prev: None,
+            });
+
+        entry.seen = true;
+
+        // Update in-memory metadata for now.
+        let meta = path.metadata().map_err(|e| FileError::from_io(e, path));
+
+        if let Some((watcher, _)) = &mut self.watcher {
+            // Case1. meta = Err(..) We cannot get the metadata successfully, so we
+            // are okay to ignore this file for watching.
+            //
+            // Case2. meta = Ok(..) Watch the file if it's not watched.
+            if meta
+                .as_ref()
+                .is_ok_and(|meta| !meta.is_dir() && (!contained || !entry.watching))
+            {
+                log::debug!("watching {path:?}");
+                entry.watching = log_notify_error(
+                    watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
+                    "failed to watch",
+                )
+                .is_some();
+            }
+
+            changeset.may_insert(self.notify_entry_update(path.clone()));
+        } else {
+            let watched = self.inner.content(path);
+            changeset.inserts.push((path.clone(), watched.into()));
+        }
+    }
+
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
         // Account file updates.
-- 
2.43.0


From 4d4f394279fc72e6dfe12070cbe8f11c20d834d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 30/40] fix: watch files again that are replaced

---
 crates/tinymist-project/src/watch.rs | 35 +++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 232f398..896171e 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -10,6 +10,7 @@
 //! crates.io, and we can reduce this to trivial glue code.
 
 use std::collections::HashMap;
+use std::path::Path;
 
 use notify::{Config, RecommendedWatcher, RecursiveMode, Watcher};
 use tinymist_std::{error::IgnoreLogging, ImmutPath};
@@ -311,18 +312,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
-        // Account file updates.
-        let mut changeset = FileChangeSet::default();
-        for path in event.paths.iter() {
-            // todo: remove this clone: path.into()
-            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
-        }
-
         // Workaround for notify-rs' implicit unwatch on remove/rename
         // (triggered by some editors when saving files) with the
         // inotify backend. By keeping track of the potentially
         // unwatched files, we can allow those we still depend on to be
-        // watched again later on.
+        // watched again: at once if there is a new file, or later on.
         if matches!(
             event.kind,
             notify::EventKind::Remove(notify::event::RemoveKind::File)
@@ -343,15 +337,37 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
                 }
                 entry.watching = false;
+                self.rewatch(path);
             }
         }
 
+        // Account file updates.
+        let mut changeset = FileChangeSet::default();
+        for path in event.paths.iter() {
+            // todo: remove this clone: path.into()
+            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
+        }
+
         // Send file updates.
         if !changeset.is_empty() {
             (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
         }
     }
 
+    /// Watches a file again that was removed or renamed, if there is a new one.
+    fn rewatch(&mut self, path: &Path) {
+        let (Some(entry), Some((watcher, _))) =
+            (self.watched_entries.get_mut(path), &mut self.watcher)
+        else {
+            return;
+        };
+        if entry.seen && !entry.watching && path.is_file() {
+            log::debug!("watching again {path:?}");
+            let res = watcher.watch(path, RecursiveMode::NonRecursive);
+            entry.watching = log_notify_error(res, "failed to watch").is_some();
+        }
+    }
+
     /// Notify any update of the file entry
     fn notify_entry_update(&mut self, path: ImmutPath) -> Option<FileEntry> {
         // The following code in rust-analyzer is commented out
@@ -469,6 +485,9 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             return None;
         }
 
+        // Watch the file before reading it.
+        self.rewatch(&event.path);
+
         // Check whether the entry is still valid
         let entry = self.watched_entries.get_mut(&event.path)?;
 
-- 
2.43.0


From d18b0b56f00a2e53227c77805ef5a3f09d5f55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 31/40] fix: escape the names of untitled documents in their
 URIs

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 912f4ff..a486950 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -1,5 +1,6 @@
 //! Conversions between Typst and LSP types and representations
 
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use tinymist_std::path::PathClean;
 use tinymist_world::vfs::PathResolution;
 
@@ -13,11 +14,15 @@ pub type LspRange = lsp_types::Range;
 pub use tinymist_analysis::location::*;
 
 const UNTITLED_ROOT: &str = "/untitled";
+/// The characters of an untitled path which mean something else in a URL.
+const UNTITLED_ESCAPES: &AsciiSet = &CONTROLS.add(b' ').add(b'%').add(b'#').add(b'?');
 static EMPTY_URL: LazyLock<Url> = LazyLock::new(|| Url::parse("file://").unwrap());
 
 /// Convert a path to a URL.
 pub fn untitled_url(path: &Path) -> anyhow::Result<Url> {
-    Ok(Url::parse(&format!("untitled:{}", path.display()))?)
+    let path = path.to_string_lossy();
+    let path = utf8_percent_encode(&path, UNTITLED_ESCAPES);
+    Ok(Url::parse(&format!("untitled:{path}"))?)
 }
 
 /// Convert a path to a URL.
-- 
2.43.0


From 065eadfc9db965e4b48fa0801b045bd4359c06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 32/40] fix: convert positions as the protocol says

Characters beyond the end of a line mean its end, rather than something in
the next lines or nothing (which made an edit panic), and in UTF-8 columns
are bytes.
---
 crates/tinymist-analysis/src/location.rs     | 59 +++++++-------------
 crates/tinymist-query/src/analysis/global.rs |  2 +-
 2 files changed, 22 insertions(+), 39 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..0cd4b4d 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -3,7 +3,7 @@
 use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -78,41 +78,26 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
-    match lsp_position_encoding {
-        PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
-        }
-        PositionEncoding::Utf16 => {
-            // We have a line number and a UTF-16 offset into that line. We want a byte
-            // offset into the file.
-            //
-            // Typst's `Source` provides several UTF-16 methods:
-            //  - `len_utf16` for the length of the file
-            //  - `byte_to_utf16` to convert a byte offset from the start of the file to a
-            //    UTF-16 offset from the start of the file
-            //  - `utf16_to_byte` to do the opposite of `byte_to_utf16`
-            //
-            // Unfortunately, none of these address our needs well, so we do some math
-            // instead. This is not the fastest possible implementation, but
-            // it's the most reasonable without access to the internal state
-            // of `Source`.
-
-            // TODO: Typst's `Source` could easily provide an implementation of the method
-            // we need   here. Submit a PR against `typst` to add it, then
-            // update this if/when merged.
-
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
+    let line_range = typst_source.line_to_range(lsp_position.line as usize)?;
+    let line = typst_source.get(line_range.clone())?;
+    // A character beyond the length of the line defaults back to the line length,
+    // which doesn't include the line ending.
+    let line = line.trim_end_matches(is_newline);
 
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
-
-            typst_source.utf16_to_byte(utf16_offset)
+    let mut remaining = lsp_position.character as usize;
+    for (offset, ch) in line.char_indices() {
+        if remaining == 0 {
+            return Some(line_range.start + offset);
         }
+
+        // A position inside of a character is put after it.
+        remaining = remaining.saturating_sub(match lsp_position_encoding {
+            PositionEncoding::Utf8 => ch.len_utf8(),
+            PositionEncoding::Utf16 => ch.len_utf16(),
+        });
     }
+
+    Some(line_range.start + line.len())
 }
 
 /// Convert a Typst position to an LSP position.
@@ -126,15 +111,13 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => {
+            (typst_offset - typst_source.line_to_byte(line_index).unwrap()) as u32
+        }
         PositionEncoding::Utf16 => {
-            // See the implementation of `position_to_offset` for discussion
-            // relevant to this function.
-
             // TODO: Typst's `Source` could easily provide an implementation of the method
             // we   need here. Submit a PR to `typst` to add it, then update
             // this if/when merged.
diff --git a/crates/tinymist-query/src/analysis/global.rs b/crates/tinymist-query/src/analysis/global.rs
index e3b59f2..636cf31 100644
--- a/crates/tinymist-query/src/analysis/global.rs
+++ b/crates/tinymist-query/src/analysis/global.rs
@@ -1360,7 +1360,7 @@ fn find_loc(
 
     let line = r as u32;
     let character = match encoding {
-        PositionEncoding::Utf8 => column_prefix.chars().count(),
+        PositionEncoding::Utf8 => column_prefix.len(),
         PositionEncoding::Utf16 => column_prefix.chars().map(|ch| ch.len_utf16()).sum(),
     } as u32;
 
-- 
2.43.0


From fcd19155b52443c02e130e63cc8f21321c32f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 33/40] fix: never publish diagnostics of an older revision or
 of a removed project

---
 crates/tinymist/src/actor/editor.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/tinymist/src/actor/editor.rs b/crates/tinymist/src/actor/editor.rs
index b9a4533..b18d3d8 100644
--- a/crates/tinymist/src/actor/editor.rs
+++ b/crates/tinymist/src/actor/editor.rs
@@ -50,6 +50,9 @@ pub struct EditorActor {
     diagnostics: HashMap<Url, HashMap<ProjectInsId, EcoVec<Diagnostic>>>,
     /// The map from project ID to the affected files.
     affect_map: HashMap<ProjectInsId, Vec<Url>>,
+    /// The map from project ID to the revision of the last diagnostics, and
+    /// whether they were removed.
+    revisions: HashMap<ProjectInsId, (usize, bool)>,
 }
 
 impl EditorActor {
@@ -64,6 +67,7 @@ impl EditorActor {
             editor_rx,
             diagnostics: HashMap::new(),
             affect_map: HashMap::new(),
+            revisions: HashMap::new(),
             config: EditorActorConfig { notify_status },
         }
     }
@@ -91,6 +95,16 @@ impl EditorActor {
                         diagnostics.as_ref().map(|files| files.len())
                     );
 
+                    // The diagnostics of a revision may be ready after those of a later revision
+                    // or after the project is removed.
+                    let revision = (version.revision, diagnostics.is_none());
+                    let last_revision = self.revisions.entry(version.id.clone()).or_default();
+                    if *last_revision > revision {
+                        log::info!("outdated diagnostics from {version:?}");
+                        continue;
+                    }
+                    *last_revision = revision;
+
                     self.publish(version.id, diagnostics).await;
                 }
                 EditorRequest::Status(compile_status) => {
-- 
2.43.0


From 09d4c14c5962d1bf4cfa426c2b3bff017b9b6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 34/40] fix: ignore compilations of projects that were replaced

A compilation that was running when its project was started again or when
the projects were reloaded was taken for one of the new project, which then
had the old document, or waited forever, and its diagnostics and its status
were never taken back.
---
 crates/tinymist-project/src/compiler.rs | 26 +++++++++++++---
 crates/tinymist/src/project.rs          | 41 ++++++++++++++++---------
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 4753197..1298797 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -474,6 +474,19 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj
     }
 
+    /// Continues the revisions of a compiler that gets replaced, because its
+    /// compilations may still be running.
+    pub fn supersede(&mut self, old: &Self) {
+        let revision = std::iter::once(&old.primary)
+            .chain(&old.dedicates)
+            .map(|proj| proj.verse.revision.get())
+            .fold(old.removed_revision, usize::max);
+
+        self.removed_revision = self.removed_revision.max(revision);
+        self.primary.committed_revision = self.primary.committed_revision.max(revision);
+        self.primary.verse.revision = self.primary.verse.revision.saturating_add(revision);
+    }
+
     /// Clear all dedicate projects.
     pub fn clear_dedicates(&mut self) {
         for proj in self.dedicates.drain(..) {
@@ -786,6 +799,12 @@ pub struct ProjectInsState<F: CompilerFeat, Ext> {
 }
 
 impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
+    /// Whether a compilation is outdated, i.e. there is a newer one or it is not
+    /// a compilation of this instance.
+    pub fn is_outdated(&self, artifact: &CompiledArtifact<F>) -> bool {
+        self.committed_revision >= artifact.world().revision().get()
+    }
+
     /// Creates a snapshot of the project.
     pub fn snapshot(&mut self) -> Arc<WorldComputeGraph<F>> {
         match self.snapshot.as_ref() {
@@ -899,15 +918,14 @@ impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
     }
 
     fn process_compile(&mut self, artifact: CompiledArtifact<F>) -> bool {
-        let world = &artifact.snap.world;
-        let compiled_revision = world.revision().get();
-        if self.committed_revision >= compiled_revision {
+        if self.is_outdated(&artifact) {
             return false;
         }
 
         // Update state.
+        let world = &artifact.snap.world;
         let doc = artifact.doc.clone();
-        self.committed_revision = compiled_revision;
+        self.committed_revision = world.revision().get();
         if doc.is_some() {
             self.latest_success_doc = doc;
         }
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 8218a10..a988754 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -93,6 +93,8 @@ impl ServerState {
         );
 
         let mut old_project = std::mem::replace(&mut self.project, new_project);
+        self.project.compiler.supersede(&old_project.compiler);
+        old_project.stop();
 
         // todo: the old dedicate projects should be transferred.
 
@@ -109,9 +111,8 @@ impl ServerState {
         self.project
             .interrupt(Interrupt::Memory(MemoryEvent::Update(snapshot)));
 
-        rayon::spawn(move || {
-            old_project.stop();
-        });
+        // Dropping the old projects may take long.
+        rayon::spawn(move || drop(old_project));
 
         Ok(())
     }
@@ -309,7 +310,7 @@ impl ProjectState {
     pub fn do_interrupt(compiler: &mut LspProjectCompiler, intr: Interrupt<LspCompilerFeat>) {
         if let Interrupt::Compiled(compiled) = &intr {
             let proj = compiler.projects().find(|p| &p.id == compiled.id());
-            if let Some(proj) = proj {
+            if let Some(proj) = proj.filter(|proj| !proj.is_outdated(compiled)) {
                 proj.ext
                     .compiled(&proj.verse.revision, proj.handler.as_ref(), compiled);
             }
@@ -322,8 +323,12 @@ impl ProjectState {
         Self::do_interrupt(&mut self.compiler, intr);
     }
 
+    /// Forgets the results of all instances.
     pub(crate) fn stop(&mut self) {
         // todo: stop all compilations
+        for proj in self.compiler.projects() {
+            proj.handler.notify_removed(&proj.id);
+        }
     }
 
     pub(crate) fn restart_dedicate(
@@ -547,15 +552,14 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
     }
 
     fn status(&self, revision: usize, rep: CompileReport) {
-        {
-            let mut n_revs = self.status_revision.lock();
-            let n_rev = n_revs.entry(rep.id.clone()).or_default();
-            if *n_rev > revision {
-                log::info!("Project: outdated status for revision {revision} <= {n_rev}");
-                return;
-            }
-            *n_rev = revision;
+        // Keeps the lock until the status is sent, to send them in order.
+        let mut n_revs = self.status_revision.lock();
+        let n_rev = n_revs.entry(rep.id.clone()).or_default();
+        if *n_rev > revision {
+            log::info!("Project: outdated status for revision {revision} <= {n_rev}");
+            return;
         }
+        *n_rev = revision;
 
         if matches!(rep.status, tinymist_project::CompileStatusEnum::Suspend) {
             let dv = ProjVersion {
@@ -581,15 +585,22 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
     }
 
     fn notify_removed(&self, id: &ProjectInsId) {
-        let n_revs = &mut self.notified_revision.lock();
-        let last_rev = n_revs.remove(id).unwrap_or_default();
+        // Compilations that are still running are not newer than the last status. They
+        // shouldn't be notified anymore.
+        let last_rev = {
+            let mut n_revs = self.status_revision.lock();
+            let n_rev = n_revs.entry(id.clone()).or_default();
+            let last_rev = *n_rev;
+            *n_rev = last_rev + 1;
+            last_rev
+        };
+        self.notified_revision.lock().insert(id.clone(), last_rev);
 
         let dv = ProjVersion {
             id: id.clone(),
             revision: last_rev,
         };
 
-        // todo: race condition with notify_compile?
         // remove diagnostics
         self.push_diagnostics(dv, None);
     }
-- 
2.43.0


From e61d00146b30040f1eb5d4fd723ef6f2ccc595d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 35/40] fix: keep the main file when the projects are reloaded

---
 crates/tinymist/src/project.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index a988754..3aeaf54 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -111,6 +111,12 @@ impl ServerState {
         self.project
             .interrupt(Interrupt::Memory(MemoryEvent::Update(snapshot)));
 
+        // Keeps the main file unless the default one takes precedence.
+        let keeps_main = self.pinning_by_user || self.entry_resolver().resolve_default().is_none();
+        if let Some(main) = old_project.main_path().filter(|_| keeps_main) {
+            self.change_main_file(Some(main))?;
+        }
+
         // Dropping the old projects may take long.
         rayon::spawn(move || drop(old_project));
 
@@ -323,6 +329,14 @@ impl ProjectState {
         Self::do_interrupt(&mut self.compiler, intr);
     }
 
+    /// The path to the main file of the primary instance.
+    fn main_path(&self) -> Option<ImmutPath> {
+        let verse = &self.compiler.primary.verse;
+        let main = verse.entry_state().main()?;
+        let path = verse.vfs().file_path(main).ok()?.to_err().ok()?;
+        Some(path.as_path().into())
+    }
+
     /// Forgets the results of all instances.
     pub(crate) fn stop(&mut self) {
         // todo: stop all compilations
-- 
2.43.0


From 8da4e0e4296c2f3b8fa0b8738f1483037d6941d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 36/40] fix: don't drop the exports and word counts of other
 projects

The tasks that wait were folded by revision only, though the revisions of
different projects are unrelated: the export of a project was lost when another
one was compiled before it started.
---
 crates/tinymist/src/task/export.rs |  4 ++--
 crates/tinymist/src/task/mod.rs    | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..a2178d1 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -82,7 +82,7 @@ impl ExportTask {
         }
 
         let rev = artifact.world().revision().get();
-        let fut = self.export_folder.spawn(rev, || {
+        let fut = self.export_folder.spawn(artifact.id(), rev, || {
             let task = config.task.clone();
             let artifact = artifact.clone();
             Box::pin(async move {
@@ -107,7 +107,7 @@ impl ExportTask {
 
         let editor_tx = self.editor_tx.clone()?;
         let rev = artifact.world().revision().get();
-        let fut = self.count_word_folder.spawn(rev, || {
+        let fut = self.count_word_folder.spawn(artifact.id(), rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
                 let id = artifact.id().clone();
diff --git a/crates/tinymist/src/task/mod.rs b/crates/tinymist/src/task/mod.rs
index 0c9cf8c..0205d94 100644
--- a/crates/tinymist/src/task/mod.rs
+++ b/crates/tinymist/src/task/mod.rs
@@ -10,7 +10,7 @@ pub use format::*;
 mod user_action;
 pub use user_action::*;
 
-use std::{ops::DerefMut, pin::Pin, sync::Arc};
+use std::{collections::VecDeque, ops::DerefMut, pin::Pin, sync::Arc};
 
 use futures::Future;
 use parking_lot::Mutex;
@@ -18,6 +18,8 @@ use rayon::Scope;
 use reflexo::TakeAs;
 use tinymist_std::error::prelude::*;
 
+use crate::project::ProjectInsId;
+
 /// Please uses this if you believe all mutations are fast
 #[derive(Clone, Default)]
 pub struct SyncTaskFactory<T>(Arc<std::sync::RwLock<Arc<T>>>);
@@ -46,7 +48,8 @@ type FoldFuture = Pin<Box<dyn Future<Output = Option<()>> + Send>>;
 #[derive(Default)]
 struct FoldingState {
     running: bool,
-    task: Option<(usize, FoldFuture)>,
+    /// The latest task that waits, of each project.
+    tasks: VecDeque<(ProjectInsId, usize, FoldFuture)>,
 }
 
 #[derive(Clone, Default)]
@@ -67,14 +70,16 @@ impl FutureFolder {
     #[must_use]
     fn spawn(
         &self,
+        id: &ProjectInsId,
         revision: usize,
         fut: impl FnOnce() -> FoldFuture,
     ) -> Option<impl Future<Output = ()> + Send + 'static> {
         let mut state = self.state.lock();
         let state = state.deref_mut();
 
-        match &mut state.task {
-            Some((prev_revision, prev)) => {
+        // The revisions of different projects are not comparable.
+        match state.tasks.iter_mut().find(|(prev_id, ..)| prev_id == id) {
+            Some((_, prev_revision, prev)) => {
                 if *prev_revision < revision {
                     *prev = fut();
                     *prev_revision = revision;
@@ -82,8 +87,8 @@ impl FutureFolder {
 
                 return None;
             }
-            next_update => {
-                *next_update = Some((revision, fut()));
+            None => {
+                state.tasks.push_back((id.clone(), revision, fut()));
             }
         }
 
@@ -98,7 +103,7 @@ impl FutureFolder {
             loop {
                 let fut = {
                     let mut state = state.lock();
-                    let Some((_, fut)) = state.task.take() else {
+                    let Some((.., fut)) = state.tasks.pop_front() else {
                         state.running = false;
                         return;
                     };
-- 
2.43.0


From 20db76112a11cf040c254c07bceea2a10cf98927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 37/40] fix: compile the default main file when the projects
 are loaded

Nothing was compiled after starting the server or changing its configuration
until a file was opened or edited. The main file that a preview holds takes
precedence over the default one, too.
---
 crates/tinymist/src/project.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 3aeaf54..0313858 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -112,9 +112,15 @@ impl ServerState {
             .interrupt(Interrupt::Memory(MemoryEvent::Update(snapshot)));
 
         // Keeps the main file unless the default one takes precedence.
-        let keeps_main = self.pinning_by_user || self.entry_resolver().resolve_default().is_none();
+        let keeps_main = self.pinning_by_user
+            || (self.pinning_by_preview && !self.pinning_by_browsing_preview)
+            || self.entry_resolver().resolve_default().is_none();
         if let Some(main) = old_project.main_path().filter(|_| keeps_main) {
             self.change_main_file(Some(main))?;
+        } else {
+            // Compiles the default main file, if any.
+            let id = self.project.primary_id().clone();
+            self.project.interrupt(Interrupt::Compile(id));
         }
 
         // Dropping the old projects may take long.
-- 
2.43.0


From 763d4ae7aa9d6412b22ccc355a57d5ca5e3a7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 38/40] fix: leave the main file as is when a relative path is
 refused

Requests to pin or to focus a relative path were answered with an error, but the
path was remembered: later requests to unpin failed, or the focus wasn't followed.
---
 crates/tinymist/src/input.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist/src/input.rs b/crates/tinymist/src/input.rs
index ff4b1de..b8d8de9 100644
--- a/crates/tinymist/src/input.rs
+++ b/crates/tinymist/src/input.rs
@@ -1,3 +1,5 @@
+use std::path::Path;
+
 use lsp_types::*;
 use reflexo_typst::Bytes;
 use tinymist_query::{to_typst_range, PositionEncoding};
@@ -105,12 +107,7 @@ impl ServerState {
 
     /// Changes main file to the given path.
     pub fn change_main_file(&mut self, path: Option<ImmutPath>) -> Result<bool> {
-        if path
-            .as_deref()
-            .is_some_and(|p| !p.is_absolute() && !p.starts_with("/untitled"))
-        {
-            return Err(error_once!("entry file must be absolute", path: path.unwrap().display()));
-        }
+        Self::check_main_file(path.as_deref())?;
 
         let task = self.resolve_task_or(path);
 
@@ -122,8 +119,20 @@ impl ServerState {
         Ok(true)
     }
 
+    /// Checks whether the path can be the main file.
+    fn check_main_file(path: Option<&Path>) -> Result<()> {
+        match path {
+            Some(path) if !path.is_absolute() && !path.starts_with("/untitled") => {
+                Err(error_once!("entry file must be absolute", path: path.display()))
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Pins the main file to the given path
     pub fn pin_main_file(&mut self, new_entry: Option<ImmutPath>) -> Result<()> {
+        Self::check_main_file(new_entry.as_deref())?;
+
         self.pinning_by_user = new_entry.is_some();
         let entry = new_entry
             .or_else(|| self.entry_resolver().resolve_default())
@@ -134,6 +143,8 @@ impl ServerState {
 
     /// Focuses main file to the given path.
     pub fn focus_main_file(&mut self, new_entry: Option<ImmutPath>) -> Result<bool> {
+        Self::check_main_file(new_entry.as_deref())?;
+
         if new_entry.as_deref() != self.focusing.as_deref() {
             self.implicit_position = None;
         }
-- 
2.43.0


From 806e2ff855ba0679497fb571d05b42f4420b4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:14 +0000
Subject: [PATCH 39/40] fix: never leave or show a partly unpacked package

The archive of a package was unpacked straight into the directory that the
package is looked up in. Another thread or process that asked for it took the
half filled directory for the package, a process that was killed meanwhile left
it there for good, and a download that failed removed what another one had
stored. Unpack it beside that directory and move it there once it is complete.
---
 crates/tinymist-package/src/registry/http.rs | 54 +++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-package/src/registry/http.rs b/crates/tinymist-package/src/registry/http.rs
index 7d8bc1d..9f68b5d 100644
--- a/crates/tinymist-package/src/registry/http.rs
+++ b/crates/tinymist-package/src/registry/http.rs
@@ -1,6 +1,7 @@
 //! Http registry for tinymist.
 
-use std::path::Path;
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Arc, OnceLock};
 
 use parking_lot::Mutex;
@@ -294,18 +295,57 @@ impl PackageStorage {
                 Err(err) => return Err(PackageError::NetworkFailed(Some(eco_format!("{err}")))),
             };
 
+            // The package directory must never be seen half filled, neither by another
+            // thread or process, nor after a crash, because it is never filled again.
+            // So the archive is unpacked beside it and moved once it is complete.
+            let failed =
+                |err| PackageError::Other(Some(eco_format!("cannot store package: {err}")));
+            let temp_dir = create_temp_dir(package_dir).map_err(failed)?;
+
             let decompressed = flate2::read::GzDecoder::new(reader);
-            tar::Archive::new(decompressed)
-                .unpack(package_dir)
-                .map_err(|err| {
-                    std::fs::remove_dir_all(package_dir).ok();
-                    PackageError::MalformedArchive(Some(eco_format!("{err}")))
-                })
+            let res = tar::Archive::new(decompressed)
+                .unpack(&temp_dir)
+                .map_err(|err| PackageError::MalformedArchive(Some(eco_format!("{err}"))))
+                .and_then(|()| match std::fs::rename(&temp_dir, package_dir) {
+                    // Somebody else was faster and has stored the same package.
+                    Err(_) if package_dir.is_dir() => {
+                        std::fs::remove_dir_all(&temp_dir).ok();
+                        Ok(())
+                    }
+                    res => res.map_err(failed),
+                });
+
+            if res.is_err() {
+                std::fs::remove_dir_all(&temp_dir).ok();
+            }
+            res
         })
         .ok_or_else(|| PackageError::Other(Some(eco_format!("cannot spawn http thread"))))?
     }
 }
 
+/// Creates a new, empty directory beside the package directory.
+fn create_temp_dir(package_dir: &Path) -> std::io::Result<PathBuf> {
+    static COUNTER: AtomicU64 = AtomicU64::new(0);
+
+    let parent = package_dir.parent().unwrap_or(Path::new("."));
+    let version = package_dir
+        .file_name()
+        .unwrap_or_default()
+        .to_string_lossy();
+    std::fs::create_dir_all(parent)?;
+    loop {
+        let id = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let name = format!(".tmp-{version}-{}-{id}", std::process::id());
+        let temp_dir = parent.join(name);
+        match std::fs::create_dir(&temp_dir) {
+            // It is left over from a process that had the same id.
+            Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => continue,
+            res => return res.map(|()| temp_dir),
+        }
+    }
+}
+
 pub(crate) fn threaded_http<T: Send + Sync>(
     url: &str,
     cert_path: Option<&Path>,
-- 
2.43.0


From d17beaac2f7f305ac757ee98fa3fc281ad3d358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:21 +0000
Subject: [PATCH 40/40] fix: read back resource paths containing colons

A project whose main file, root or font path contains a colon (or any path
given by a drive letter or a package) was written to tinymist.lock, and then
the whole lock file could neither be read nor updated.
---
 crates/tinymist-task/src/primitives.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..63e732e 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,10 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path itself may contain colons, e.g. `file:a:b.typ`, `file:C:/a.typ`
+        // or `file_id:@preview/example:0.1.0/lib.typ`.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0

