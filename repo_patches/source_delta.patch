From c43e9c366d63012e96af6d5e48e5451d39bdd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 01/19] fix: keep 64-bit DAP sequence numbers exact

A debug adapter request with a sequence number outside the i32 range was
answered with a truncated request_seq, and a reply with such a number could
run the handler of another request.
---
 crates/sync-lsp/src/msg.rs            | 13 +++++++++++++
 crates/sync-lsp/src/server.rs         |  6 +-----
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..47e4843 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -22,6 +22,7 @@ impl RequestId {
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
             IdRepr::I32(it) => it as i64,
+            IdRepr::I64(it) => it,
             IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
         }
     }
@@ -31,6 +32,8 @@ impl RequestId {
 #[serde(untagged)]
 enum IdRepr {
     I32(i32),
+    /// A number that doesn't fit in [`IdRepr::I32`].
+    I64(i64),
     String(String),
 }
 
@@ -40,6 +43,15 @@ impl From<i32> for RequestId {
     }
 }
 
+impl From<i64> for RequestId {
+    fn from(id: i64) -> RequestId {
+        match i32::try_from(id) {
+            Ok(id) => RequestId(IdRepr::I32(id)),
+            Err(_) => RequestId(IdRepr::I64(id)),
+        }
+    }
+}
+
 impl From<String> for RequestId {
     fn from(id: String) -> RequestId {
         RequestId(IdRepr::String(id))
@@ -50,6 +62,7 @@ impl fmt::Display for RequestId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.0 {
             IdRepr::I32(it) => fmt::Display::fmt(it, f),
+            IdRepr::I64(it) => fmt::Display::fmt(it, f),
             // Use debug here, to make it clear that `92` and `"92"` are
             // different, and to reduce WTF factor if the sever uses `" "` as an
             // ID.
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..73fe721 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -275,11 +275,7 @@ impl LspClient {
     #[cfg(feature = "dap")]
     pub fn complete_dap_request<S: Any>(&self, service: &mut S, response: dap::Response) {
         let mut req_queue = self.req_queue.lock();
-        let Some(handler) = req_queue
-            .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
-        else {
+        let Some(handler) = req_queue.outgoing.complete(response.request_seq.into()) else {
             log::warn!("received response for unknown request");
             return;
         };
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..6cecc7f 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = req.seq.into();
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From 8bf4e208e9e73fd16b826d468e8142871eabc851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 02/19] fix: answer a resource query without a path instead of
 panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 73fe721..431b513 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -613,8 +613,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("missing resource path"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From c10cc6dcd27e1839102896f072388c25fd9026e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 03/19] fix: do not allocate the announced content length up
 front

A header announcing a huge Content-Length made the reader panic or abort
while reserving memory, before a single payload byte had arrived.
---
 crates/sync-lsp/src/msg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 47e4843..182145e 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -243,9 +243,12 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
         }
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
+    // The announced size is not trusted until that many bytes have arrived.
     let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    buf.clear();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From 3f056fed2e4deff1b2e058801006cff0c1ffe120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 04/19] fix: a mirrored stream survives consuming nothing at
 its end

---
 crates/sync-lsp/src/transport.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 4a7cc4a..063be2f 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -222,12 +222,16 @@ impl<R: Read + BufRead, W: Write> BufRead for MirrorWriter<R, W> {
     }
 
     fn consume(&mut self, amt: usize) {
-        let buf = self.0.fill_buf().unwrap();
-
-        if let Err(err) = self.1.write_all(&buf[..amt]) {
-            self.2.call_once(|| {
-                log::warn!("failed to write to mirror: {err}");
-            });
+        // Consuming nothing must not touch the input again: it may have ended or be
+        // failing, and then there is nothing to peek at.
+        if amt > 0 {
+            let buf = self.0.fill_buf().unwrap();
+
+            if let Err(err) = self.1.write_all(&buf[..amt]) {
+                self.2.call_once(|| {
+                    log::warn!("failed to write to mirror: {err}");
+                });
+            }
         }
 
         self.0.consume(amt);
-- 
2.43.0


From 4f117aabd00186cd04338bc1e1034d1e0f8df40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 05/19] fix: report texts that encode no fingerprint instead of
 panicking

---
 crates/tinymist-std/src/hash.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..e00f4df 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,8 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::bail;
+use crate::error::prelude::{map_string_err, Result};
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +90,27 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        let decode = |bytes: &[u8]| {
+            base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(bytes)
+                .map_err(map_string_err("invalid base64 string"))
+        };
+
+        // The lower half is always encoded in full, which takes 11 characters.
+        let bytes = s.as_bytes();
+        if bytes.len() < 11 {
+            bail!("the fingerprint is too short: {s}");
+        }
+        let lo = decode(&bytes[..11])?;
+        // The higher half is encoded without its trailing zeros.
+        let mut hi = decode(&bytes[11..])?;
+        if lo.len() != 8 || hi.len() > 8 || hi.last() == Some(&0) {
+            bail!("invalid fingerprint: {s}");
+        }
+        hi.resize(8, 0);
+
+        let lo = u64::from_le_bytes(lo.try_into().unwrap());
+        let hi = u64::from_le_bytes(hi.try_into().unwrap());
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From 2d97ac9d5e24e6d0eb360356212fc11610f28633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 06/19] fix: a fingerprint map can be created for every shard
 request

---
 crates/tinymist-std/src/adt/fmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..d357d0b 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,8 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        // The maximum is a power of two itself, so that rounding up stays within it.
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE).next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From f0f544aa7c0fb6eff3c2907b442794dc85aec197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 07/19] fix: path diff answers only with a way that leads back

Paths like `..` seen from `../..` got an answer that leads elsewhere, and the current directory counted as a component.
---
 crates/tinymist-std/src/path.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..e4e0605 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -58,13 +58,33 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
         if p.components()
             .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
-            Cow::Owned(p.clean())
+            let p = p.clean();
+            // The current directory has no component to compare.
+            if p == Path::new(".") {
+                Cow::Borrowed(Path::new(""))
+            } else {
+                Cow::Owned(p)
+            }
         } else {
             Cow::Borrowed(p)
         }
     }
 
-    pathdiff::diff_paths(clean_for_diff(fr).as_ref(), clean_for_diff(to).as_ref())
+    fn leading_parents(p: &Path) -> usize {
+        p.components()
+            .take_while(|c| matches!(c, Component::ParentDir))
+            .count()
+    }
+
+    let fr = clean_for_diff(fr);
+    let to = clean_for_diff(to);
+
+    // The way down from an ancestor that is further up is not known.
+    if fr.is_relative() && leading_parents(&to) > leading_parents(&fr) {
+        return None;
+    }
+
+    pathdiff::diff_paths(fr.as_ref(), to.as_ref())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 361836a1d1854b648440f6faadd2f935bfa995e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 08/19] fix: substitute message placeholders without losing
 text

---
 crates/tinymist-l10n/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..e21345d 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -236,19 +236,22 @@ pub fn t_with_args(
     let message_iter = &mut message.chars();
     while let Some(c) = message_iter.next() {
         if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
+            // An unbalanced brace is not a placeholder.
+            let Some((arg_index_str, rest)) = message_iter.as_str().split_once('}') else {
+                result.push(c);
+                continue;
+            };
 
             let Some(arg) = args
                 .iter()
-                .find(|(k, _)| k == &arg_index_str)
+                .find(|(k, _)| *k == arg_index_str)
                 .map(|(_, v)| v)
             else {
                 result.push(c);
-                result.push_str(&arg_index_str);
                 continue;
             };
 
+            *message_iter = rest.chars();
             match arg {
                 Arg::Str(s) => result.push_str(s.as_ref()),
                 Arg::Int(i) => result.push_str(&i.to_string()),
-- 
2.43.0


From 3c383cef39b2d4b7253ea440ae5324bac4749369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 09/19] fix: resource paths with a colon in the path can be
 read back

---
 crates/tinymist-task/src/primitives.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..f2ebbff 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,10 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // A scheme has no colon, but a path may have some, e.g. `a:b.typ` or the
+        // package specification `@preview/pkg:0.1.0`.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 2abdf7ae17890bd6a61540592316bc093263a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 10/19] fix: reuse the workspace id of a root given in
 uncleaned form

---
 crates/tinymist-vfs/src/path_mapper.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..6097325 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -182,7 +182,12 @@ impl WorkspaceResolver {
             return id;
         }
 
+        // The interner holds cleaned roots only, so the root may be known by its
+        // cleaned form.
         let root = ImmutPath::from(root.clean());
+        if let Some(&id) = interner.to_id.get(&root) {
+            return id;
+        }
 
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
-- 
2.43.0


From 0db030923cbaf04ed7a6a0a69fe4a66e409a5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 11/19] fix: separate the view of a vfs whenever its access
 model changes

---
 crates/tinymist-vfs/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..3f11d66 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -502,6 +502,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
+        self.view_changed = true;
         for path in self.am().inner.inner.file_paths() {
             self.invalidate_path(&path);
         }
@@ -566,6 +567,8 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        // The access model changes even if no file is read from the paths yet.
+        self.view_changed = true;
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From 373cf4065ce8faadc78d0e669e19f202f3b406e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 12/19] fix: do not share unread entries of a vfs between
 revisions

---
 crates/tinymist-vfs/src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 3f11d66..4b54251 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,7 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let managed = self.managed.lock().detach();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -608,6 +608,23 @@ impl EntryMap {
         }
     }
 
+    /// Copies the entries for a new revision. The results that are not computed
+    /// yet are not shared, since they may differ between the revisions.
+    fn detach(&self) -> Self {
+        let mut entries = self.entries.clone();
+        for (id, entry) in self.entries.iter() {
+            if entry.bytes.get().is_none() {
+                let changed_at = entry.changed_at;
+                let entry = VfsEntry {
+                    changed_at,
+                    ..VfsEntry::default()
+                };
+                entries.insert_mut(*id, entry);
+            }
+        }
+        Self { entries }
+    }
+
     fn display(&self) -> DisplayEntryMap {
         DisplayEntryMap { map: self }
     }
-- 
2.43.0


From d2c25d240a9ea5c714871184125ebb1d1e46bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 13/19] fix: count bytes in UTF-8 positions

---
 crates/tinymist-analysis/src/location.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..99a0320 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -82,7 +82,14 @@ pub fn to_typst_position(
         PositionEncoding::Utf8 => {
             let line_index = lsp_position.line as usize;
             let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
+
+            // Typst's columns count characters, but the ones of LSP count bytes.
+            let line_range = typst_source.line_to_range(line_index)?;
+            let byte_offset = (line_range.start + column_index).min(line_range.end);
+            typst_source
+                .text()
+                .is_char_boundary(byte_offset)
+                .then_some(byte_offset)
         }
         PositionEncoding::Utf16 => {
             // We have a line number and a UTF-16 offset into that line. We want a byte
@@ -126,11 +133,13 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => {
+            let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
+            (typst_offset - byte_line_offset) as u32
+        }
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
-- 
2.43.0


From f799ab38e8742836f3106d6506bb6223e1f9e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 14/19] fix: clamp a position past the end of its line to the
 line

---
 crates/tinymist-analysis/src/location.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index 99a0320..154a621 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -3,7 +3,7 @@
 use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -78,14 +78,18 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
+    // LSP: If the character value is greater than the line length it defaults back
+    // to the line length.
+    let line_range = typst_source.line_to_range(lsp_position.line as usize)?;
+    let line_text = typst_source.get(line_range.clone())?;
+    let line_end = line_range.start + line_text.trim_end_matches(is_newline).len();
+
     match lsp_position_encoding {
         PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
             let column_index = lsp_position.character as usize;
 
             // Typst's columns count characters, but the ones of LSP count bytes.
-            let line_range = typst_source.line_to_range(line_index)?;
-            let byte_offset = (line_range.start + column_index).min(line_range.end);
+            let byte_offset = (line_range.start + column_index).min(line_end);
             typst_source
                 .text()
                 .is_char_boundary(byte_offset)
@@ -117,7 +121,8 @@ pub fn to_typst_position(
             let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
             let utf16_offset = utf16_line_offset + utf16_offset_in_line;
 
-            typst_source.utf16_to_byte(utf16_offset)
+            let byte_offset = typst_source.utf16_to_byte(utf16_offset);
+            Some(byte_offset.map_or(line_end, |offset| offset.min(line_end)))
         }
     }
 }
-- 
2.43.0


From 950976e95bcc37374a04daab00048a0943cebe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 15/19] fix: report a lasting removal or truncation of a
 watched file

The content a file was removed or truncated to was recorded as known to the
consumer before it was sent, so the recheck never sent it.
---
 crates/tinymist-project/src/watch.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..349b57d 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -64,7 +64,7 @@ struct WatchedEntry {
     seen: bool,
     /// The state of the entry.
     state: WatchState,
-    /// Previous content of the file.
+    /// Previous content of the file, as the consumer knows it.
     prev: Option<FileSnapshot>,
 }
 
@@ -381,9 +381,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
+                            payload: file,
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -412,6 +411,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    // A momentary removal or truncation is over
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
@@ -423,9 +424,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
+                                payload: file,
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -486,13 +486,16 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 if recheck_at == event.at_logical_tick {
                     log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
-                    if Some(&payload) == entry.prev.as_ref() {
+                    // The file may be back without an event, since a removal ends watching it
+                    let file = FileSnapshot::from(self.inner.content(&event.path));
+                    if Some(&file) == entry.prev.as_ref() {
                         return None;
                     }
 
                     // Send the underlying change to the consumer
+                    entry.prev = Some(file.clone());
                     let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
+                    changeset.inserts.push((event.path, file));
 
                     (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
                 }
-- 
2.43.0


From efadc79ead73ea5990b000013ac03557490808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 16/19] fix: keep a recheck of a watched file across an
 outdated one

A recheck event whose removal or truncation was over marked the entry as
stable, so a later removal waiting for its own recheck was never reported.
---
 crates/tinymist-project/src/watch.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 349b57d..89257a7 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -498,6 +498,12 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     changeset.inserts.push((event.path, file));
 
                     (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
+                } else {
+                    // A later event is to recheck the file
+                    entry.state = WatchState::EmptyOrRemoval {
+                        recheck_at,
+                        payload,
+                    };
                 }
             }
         };
-- 
2.43.0


From f206be9c0b13d80aebcf1740708eddb16f2fed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 17/19] fix: advance the logical tick for each delayed memory
 event

---
 crates/tinymist-project/src/compiler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..5423a2e 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -641,6 +641,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
                 // Otherwise, send upstream update event.
                 // Also, record the logical tick when shadow is dirty.
+                self.logical_tick += 1;
                 self.dirty_shadow_logical_tick = self.logical_tick;
                 let event = NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent {
                     invalidates: files.into_iter().collect(),
-- 
2.43.0


From 8a2c9fbc608bb42b4221794832e6e7dc13326430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 18/19] fix: a late event of a settled project is ignored
 rather than a panic

---
 crates/tinymist-project/src/compiler.rs | 27 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 5423a2e..7493593 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,12 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        dedicates.iter_mut().find(|e| e.id == *id)
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +524,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    log::warn!("ProjectCompiler: project to compile is settled {id:?}");
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +537,13 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                // The project may be settled during the compilation.
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    log::warn!("ProjectCompiler: compiled project is settled {artifact}");
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +561,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    log::warn!("ProjectCompiler: project to change is settled {id:?}");
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From 6ed09082dd707eed21b036bee935ff434ddfe6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 19/19] fix: a result of a removed project is not taken for one
 of its successor

---
 crates/tinymist-project/src/compiler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 7493593..f5b999f 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -2,6 +2,7 @@
 
 use core::fmt;
 use std::collections::HashSet;
+use std::num::NonZeroUsize;
 use std::path::Path;
 use std::sync::{Arc, OnceLock};
 
@@ -380,6 +381,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
     /// The project file dependencies.
     deps: ProjectDeps,
+    /// The last revision of the removed projects.
+    removed_revision: usize,
 }
 
 impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCompiler<F, Ext> {
@@ -413,6 +416,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -489,6 +493,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         proj.reason.see(reason_by_entry_change());
 
         self.remove_dedicates(&id);
+
+        // A compilation of a removed project may be still running, and its result
+        // must not be taken for one of the new project with the same id.
+        proj.verse.revision = NonZeroUsize::MIN.saturating_add(self.removed_revision);
+        proj.committed_revision = self.removed_revision;
         self.dedicates.push(proj);
 
         Ok(id)
@@ -501,7 +510,8 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.handler.notify_removed(id);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
+            let proj = self.dedicates.remove(idx);
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get());
             // todo: kill compilations
 
             let res = self
-- 
2.43.0

