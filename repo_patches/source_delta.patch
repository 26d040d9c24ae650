From b8b79b8b66fac36316dd3bb61d7d746e1c57342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 1/8] verification hooks, guarded by cfg(baokeshed_verif) and
 cfg(baokeshed_verif_state)

---
 reference_impl/reference_impl.rs | 36 ++++++++++++++++++++
 src/lib.rs                       | 37 ++++++++++++++++++++
 src/platform.rs                  | 12 +++++++
 src/verif.rs                     | 58 ++++++++++++++++++++++++++++++++
 4 files changed, 143 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/reference_impl/reference_impl.rs b/reference_impl/reference_impl.rs
index c0b72d3..988459a 100644
--- a/reference_impl/reference_impl.rs
+++ b/reference_impl/reference_impl.rs
@@ -1,3 +1,6 @@
+// The baokeshed_verif* cfgs guard hooks for an external verification harness.
+#![allow(unexpected_cfgs)]
+
 use core::cmp::min;
 use core::convert::TryInto;
 
@@ -327,3 +330,36 @@ impl Hasher {
         output.root_output_bytes(out_slice);
     }
 }
+
+#[cfg(baokeshed_verif_state)]
+#[doc(hidden)]
+impl Hasher {
+    // Every bit of state that can influence later calls, in a canonical form.
+    pub fn verif_state(&self) -> Vec<u8> {
+        let mut state = Vec::new();
+        for word in self.subtree_stack[..self.subtree_stack_len as usize]
+            .iter()
+            .flatten()
+            .chain(&self.key)
+            .chain(&self.chunk_state.chaining_value)
+        {
+            state.extend_from_slice(&word.to_le_bytes());
+        }
+        state.extend_from_slice(&self.chunk_state.block[..]);
+        state.extend_from_slice(&self.chunk_state.offset.to_le_bytes());
+        state.extend_from_slice(&(self.chunk_state.block_len as u64).to_le_bytes());
+        state.extend_from_slice(&(self.chunk_state.blocks_compressed as u64).to_le_bytes());
+        state.extend_from_slice(&(self.chunk_state.flags as u64).to_le_bytes());
+        state
+    }
+
+    // Put a hasher that has no input yet at the given offset, as though the
+    // given subtree chaining values had been computed from the input before it.
+    pub fn verif_place(&mut self, subtree_stack: &[[u32; 8]], offset: u64) {
+        self.subtree_stack_len = 0;
+        for cv in subtree_stack {
+            self.push_stack(cv);
+        }
+        self.chunk_state.offset = offset;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 10a3798..5ebd046 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,9 @@
 //!
 //! - [GitHub repo](https://github.com/oconnor663/baokeshed)
 
+// The baokeshed_verif* cfgs guard hooks for an external verification harness.
+#![allow(unexpected_cfgs)]
+
 use arrayref::{array_mut_ref, array_ref, array_refs, mut_array_refs};
 use arrayvec::{ArrayString, ArrayVec};
 use core::cmp;
@@ -53,6 +56,10 @@ pub mod portable64;
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub mod sse41;
 
+#[cfg(baokeshed_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(test)]
 mod test;
 
@@ -984,6 +991,36 @@ impl Hasher {
     }
 }
 
+#[cfg(baokeshed_verif_state)]
+#[doc(hidden)]
+impl Hasher {
+    // Every bit of state that can influence later calls, in a canonical form.
+    pub fn verif_state(&self) -> Vec<u8> {
+        let mut state = Vec::new();
+        for hash in self.subtree_hashes.iter() {
+            state.extend_from_slice(&hash[..]);
+        }
+        state.extend_from_slice(&bytes_from_state_words(&self.chunk.cv));
+        state.extend_from_slice(&bytes_from_state_words(&self.chunk.key));
+        state.extend_from_slice(&self.chunk.buf[..]);
+        state.extend_from_slice(&self.chunk.offset.to_le_bytes());
+        state.extend_from_slice(&(self.chunk.count as u64).to_le_bytes());
+        state.extend_from_slice(&(self.chunk.buf_len as u64).to_le_bytes());
+        state.push(self.chunk.flags.bits());
+        state
+    }
+
+    // Put a hasher that has no input yet at the given offset, as though the
+    // given subtree hashes had been computed from the input before it.
+    pub fn verif_place(&mut self, subtree_hashes: &[[u8; OUT_LEN]], offset: u64) {
+        self.subtree_hashes.clear();
+        for hash in subtree_hashes {
+            self.subtree_hashes.push(*hash);
+        }
+        self.chunk.offset = offset;
+    }
+}
+
 // Derive an empty Debug impl, because the contents might be secret.
 impl fmt::Debug for Hasher {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
diff --git a/src/platform.rs b/src/platform.rs
index 3409a7e..5f4f760 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -28,6 +28,12 @@ pub enum Platform {
 
 impl Platform {
     pub fn detect() -> Self {
+        #[cfg(baokeshed_verif)]
+        {
+            if let Some(platform) = crate::verif::forced_platform() {
+                return platform;
+            }
+        }
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
             if is_x86_feature_detected!("avx2") {
@@ -58,6 +64,8 @@ impl Platform {
         offset: u64,
         flags: u8,
     ) {
+        #[cfg(baokeshed_verif)]
+        crate::verif::point();
         match self {
             Platform::Portable => portable::compress(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -76,6 +84,8 @@ impl Platform {
         offset: u64,
         flags: u8,
     ) -> [u8; 64] {
+        #[cfg(baokeshed_verif)]
+        crate::verif::point();
         match self {
             Platform::Portable => portable::compress_xof(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -97,6 +107,8 @@ impl Platform {
         flags_end: u8,
         out: &mut [u8],
     ) {
+        #[cfg(baokeshed_verif)]
+        crate::verif::point();
         match self {
             Platform::Portable => portable::hash_many(
                 inputs,
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..16b9741
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,58 @@
+//! Hooks for the external verification harness.
+//!
+//! This module only exists when the crate is compiled with
+//! `--cfg baokeshed_verif`, and nothing in it changes what is computed.
+
+use crate::platform::Platform;
+use std::cell::Cell;
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+std::thread_local! {
+    static FORCED: Cell<u8> = Cell::new(0);
+}
+
+static POINT: AtomicUsize = AtomicUsize::new(0);
+
+/// Choose the platform that detection returns on this thread: 1 is Portable, 2
+/// is SSE4.1, 3 is AVX2, and 0 restores real detection. Returns false, and
+/// changes nothing, if this machine doesn't support the choice.
+pub fn force_platform(choice: u8) -> bool {
+    let supported = match choice {
+        0 | 1 => true,
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        2 => is_x86_feature_detected!("sse4.1"),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        3 => is_x86_feature_detected!("avx2"),
+        _ => false,
+    };
+    if supported {
+        FORCED.with(|f| f.set(choice));
+    }
+    supported
+}
+
+pub(crate) fn forced_platform() -> Option<Platform> {
+    match FORCED.with(|f| f.get()) {
+        1 => Some(Platform::Portable),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        2 => Some(Platform::SSE41),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        3 => Some(Platform::AVX2),
+        _ => None,
+    }
+}
+
+/// Install a function to be called before every compression function call, so
+/// that a scheduler can interleave threads there.
+pub fn set_point(f: Option<fn()>) {
+    POINT.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
+}
+
+#[inline(always)]
+pub(crate) fn point() {
+    let p = POINT.load(Ordering::Relaxed);
+    if p != 0 {
+        let f: fn() = unsafe { core::mem::transmute(p) };
+        f();
+    }
+}
-- 
2.43.0


From f650977acca7bdda23ac8b29e2d2410e8ade482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 2/8] verification hooks: clonable reference hasher under
 cfg(baokeshed_verif_state)

---
 reference_impl/reference_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reference_impl/reference_impl.rs b/reference_impl/reference_impl.rs
index 988459a..c1e84fe 100644
--- a/reference_impl/reference_impl.rs
+++ b/reference_impl/reference_impl.rs
@@ -142,6 +142,7 @@ impl Output {
     }
 }
 
+#[cfg_attr(baokeshed_verif_state, derive(Clone))]
 struct ChunkState {
     chaining_value: [u32; 8],
     offset: u64,
@@ -232,6 +233,7 @@ fn parent_output(
 }
 
 /// An incremental hasher that can accept any number of writes.
+#[cfg_attr(baokeshed_verif_state, derive(Clone))]
 pub struct Hasher {
     chunk_state: ChunkState,
     key: [u32; 8],
-- 
2.43.0


From e7f7d4caeeff51f9624c53a441c4cfa9c3a64932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 3/8] fix: print the requested number of bytes for output
 lengths of 2^63 and more

---
 baokeshed_bin/src/main.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..fd4166e 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,18 +71,18 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
-    while hex_bytes_remaining > 0 {
+    let mut bytes_remaining = byte_length;
+    while bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
-        print!("{}", &hex1[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex1[..2 * take as usize]);
+        bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
-        print!("{}", &hex2[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex2[..2 * take as usize]);
+        bytes_remaining -= take;
     }
 }
 
-- 
2.43.0


From de0e5c649f79229f80b36f1b70794331fb6500eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 4/8] fix: check the C subtree stack for room after merging,
 not before

---
 c/baokeshed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..bb9a01e 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,10 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0


From 064fddeb581b2acbd747dc4944ba0f00498cd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 5/8] fix: give the C hasher's Rust object room for all 53
 subtree hashes

---
 src/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.rs b/src/c.rs
index 23cda5b..a1ce9d8 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -25,7 +25,7 @@ pub struct ChunkState {
 pub struct Hasher {
     chunk: ChunkState,
     subtree_hashes_len: u8,
-    subtree_hashes: [u8; 1664usize],
+    subtree_hashes: [u8; 1696usize],
 }
 
 impl Hasher {
-- 
2.43.0


From 45531f37c749f97bb497984943088c85dc4feb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 6/8] fix: reject a blank --length instead of printing an empty
 digest

---
 baokeshed_bin/src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index fd4166e..a4930e2 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::{bail, Result};
+use anyhow::{anyhow, bail, Result};
 use serde::Deserialize;
 use std::cmp;
 use std::fs::File;
@@ -19,7 +19,8 @@ struct Args {
     flag_help: bool,
     flag_key: Option<String>,
     flag_derive_key: Option<String>,
-    flag_length: Option<u64>,
+    // Not a u64, because docopt reads a blank number as zero.
+    flag_length: Option<String>,
     flag_version: bool,
 }
 
@@ -87,7 +88,12 @@ fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
 }
 
 fn hash(args: &Args) -> Result<()> {
-    let byte_length = args.flag_length.unwrap_or(baokeshed::OUT_LEN as u64);
+    let byte_length: u64 = match args.flag_length {
+        Some(ref length) => length
+            .parse()
+            .map_err(|e| anyhow!("bad length {:?}: {}", length, e))?,
+        None => baokeshed::OUT_LEN as u64,
+    };
     let derive_key = args.flag_derive_key.is_some();
     let key = if let Some(key_str) = args.flag_key.as_ref().or(args.flag_derive_key.as_ref()) {
         let key_bytes = hex::decode(key_str)?;
-- 
2.43.0


From 8076efcd06f6a515fed72b2ed3ef643e3e5b8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 7/8] verification hooks: scheduling points after compression
 calls too

---
 src/platform.rs |  6 +++---
 src/verif.rs    | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/platform.rs b/src/platform.rs
index 5f4f760..1dff83e 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -65,7 +65,7 @@ impl Platform {
         flags: u8,
     ) {
         #[cfg(baokeshed_verif)]
-        crate::verif::point();
+        let _points = crate::verif::Points::new();
         match self {
             Platform::Portable => portable::compress(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -85,7 +85,7 @@ impl Platform {
         flags: u8,
     ) -> [u8; 64] {
         #[cfg(baokeshed_verif)]
-        crate::verif::point();
+        let _points = crate::verif::Points::new();
         match self {
             Platform::Portable => portable::compress_xof(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -108,7 +108,7 @@ impl Platform {
         out: &mut [u8],
     ) {
         #[cfg(baokeshed_verif)]
-        crate::verif::point();
+        let _points = crate::verif::Points::new();
         match self {
             Platform::Portable => portable::hash_many(
                 inputs,
diff --git a/src/verif.rs b/src/verif.rs
index 16b9741..2f8a384 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -42,17 +42,35 @@ pub(crate) fn forced_platform() -> Option<Platform> {
     }
 }
 
-/// Install a function to be called before every compression function call, so
-/// that a scheduler can interleave threads there.
+/// Install a function to be called before and after every compression function
+/// call, so that a scheduler can interleave threads there.
 pub fn set_point(f: Option<fn()>) {
     POINT.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
 }
 
 #[inline(always)]
-pub(crate) fn point() {
+fn point() {
     let p = POINT.load(Ordering::Relaxed);
     if p != 0 {
         let f: fn() = unsafe { core::mem::transmute(p) };
         f();
     }
 }
+
+/// A scheduling point where it's made, and another one where it's dropped.
+pub(crate) struct Points(());
+
+impl Points {
+    #[inline(always)]
+    pub(crate) fn new() -> Self {
+        point();
+        Points(())
+    }
+}
+
+impl Drop for Points {
+    #[inline(always)]
+    fn drop(&mut self) {
+        point();
+    }
+}
-- 
2.43.0


From 55733aeaeacfb6419ca8a9fb3e0a43c713c89b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 8/8] verification hooks: an output at any position

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5ebd046..66b2222 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -991,6 +991,16 @@ impl Hasher {
     }
 }
 
+#[cfg(baokeshed_verif_state)]
+#[doc(hidden)]
+impl Output {
+    // Continue at another position of the stream, as if everything before had
+    // been read.
+    pub fn verif_seek(&mut self, offset: u64) {
+        self.offset = offset;
+    }
+}
+
 #[cfg(baokeshed_verif_state)]
 #[doc(hidden)]
 impl Hasher {
-- 
2.43.0

