From e387984281ab38635f5640391bc0473451dc7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 1/3] fix: don't include the key block in State::count()

count() is documented as the total number of bytes input so far, but a
keyed State started at 64, and a keyed blake2sp::State at 8 * 64.
---
 src/blake2sp.rs |  1 +
 src/lib.rs      | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..e970ab5 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -140,6 +140,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..51db30f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -416,7 +418,13 @@ impl State {
 
     /// Return the total number of bytes input so far.
     pub fn count(&self) -> u64 {
-        self.count
+        // The key block goes through the compression function like any other block, so it's
+        // included in `self.count`, but it's not part of the caller's input.
+        if self.is_keyed {
+            self.count - BLOCKBYTES as u64
+        } else {
+            self.count
+        }
     }
 }
 
@@ -454,7 +462,9 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(),
+            self.hash_length,
+            self.last_node,
         )
     }
 }
@@ -1002,6 +1012,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0


From 5bd8fd762bff9582d55e208bac9188da36324fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 2/3] fix: honor the key in hash4_exact and hash8_exact

The SSE4.1 and AVX2 implementations start from the parameter words and
never compress the key block, so on those platforms keyed params gave
the wrong hash.
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 51db30f..1eca375 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -797,6 +797,11 @@ pub fn hash4_exact(
         "invalid hash8_exact inputs"
     );
 
+    if params.key_length > 0 {
+        // The SIMD implementations don't support keying, and would silently ignore the key block.
+        return portable::hash4_exact(params, input0, input1, input2, input3);
+    }
+
     let hash4_exact_fn = default_compress_impl().3;
     unsafe { hash4_exact_fn(params, input0, input1, input2, input3) }
 }
@@ -829,6 +834,13 @@ pub fn hash8_exact(
         "invalid hash8_exact inputs"
     );
 
+    if params.key_length > 0 {
+        // The SIMD implementations don't support keying, and would silently ignore the key block.
+        return portable::hash8_exact(
+            params, input0, input1, input2, input3, input4, input5, input6, input7,
+        );
+    }
+
     let hash8_exact_fn = default_compress_impl().2;
     unsafe {
         hash8_exact_fn(
-- 
2.43.0


From dfca921a68ba8cdf84afcc0294f1a737507b0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 3/3] fix: hash the key blocks of a keyed BLAKE2sp state in
 order

The leaves of a keyed blake2sp::State started with the key block in
their own buffers, but compress8 bypasses those buffers. Once there was
enough input to compress, that gave the wrong hash (or failed a debug
assertion). Put the key blocks in the BLAKE2sp buffer instead.
---
 src/blake2sp.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index e970ab5..790db36 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -87,6 +87,7 @@ pub struct State {
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
     compress8_fn: Compress8Fn,
+    is_keyed: bool,
 }
 
 impl State {
@@ -124,6 +125,11 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf's own buffer. Our compress8 function bypasses that
+            // buffer, so all leaf input, including the key blocks, goes through our buffer instead.
+            state.buflen = 0;
+            state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -141,6 +147,15 @@ impl State {
         root_state.buflen = 0;
         root_state.count = 0;
         root_state.is_keyed = false;
+        // If there's a key, the key block is the first block of input to each of the leaves.
+        let mut buf = [0; 2 * 8 * BLOCKBYTES];
+        let mut buflen = 0;
+        if params.key_length > 0 {
+            for i in 0..8 {
+                buf[i * BLOCKBYTES..i * BLOCKBYTES + KEYBYTES].copy_from_slice(&params.key);
+            }
+            buflen = 8 * BLOCKBYTES as u16;
+        }
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -151,9 +166,10 @@ impl State {
             leaf6: leaf_state(6),
             leaf7: leaf_state(7),
             root: root_state,
-            buf: [0; 2 * 8 * BLOCKBYTES],
-            buflen: 0,
+            buf: buf,
+            buflen: buflen,
             compress8_fn: crate::default_compress_impl().1,
+            is_keyed: params.key_length > 0,
         }
     }
 
@@ -390,7 +406,7 @@ impl State {
 
     /// Return the total number of bytes input so far.
     pub fn count(&self) -> u64 {
-        self.leaf0.count()
+        let total = self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
             + self.leaf3.count()
@@ -398,7 +414,13 @@ impl State {
             + self.leaf5.count()
             + self.leaf6.count()
             + self.leaf7.count()
-            + self.buflen as u64
+            + self.buflen as u64;
+        // The key blocks aren't part of the caller's input.
+        if self.is_keyed {
+            total - 8 * BLOCKBYTES as u64
+        } else {
+            total
+        }
     }
 }
 
-- 
2.43.0

