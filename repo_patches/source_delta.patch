From af7f614427f78392442259793f8b745e56956f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 01/18] fix: gear: push returns the index after the matching
 byte

GearIncr32::push returned the index of the byte that completes a chunk,
while find_chunk_edge (and every other incremental chunker) returns the
index just after it. Slices made from the incremental interface were one
byte short, the byte was hashed twice, and a match on the first byte of a
piece returned 0, so iter_slices never advanced.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 11962968b2ca8db3f94f3bcb19a25c127a76258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 02/18] fix: ram: push returns the index after the deciding
 byte

RamIncr::push returned the index of the byte that ends the chunk, while
find_chunk_edge includes that byte in the chunk.
---
 src/ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..dfb3964 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,6 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From 69e6f42600306305f27f219fd03adac74f90258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 03/18] fix: zstd: push returns the index after the deciding
 byte

ZstdIncr::push returned the index of the byte that completes the hash
match, while find_chunk_edge includes that byte in the chunk.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 6d203bc78b8063e87a9ca30ec25e5f99629c535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 04/18] fix: zstd: find_chunk_edge continues right after the
 split it reports

After a split the search told its caller to discard all but the last 32
bytes of the buffer, whatever the position of the split, and did not
record how much of the rest it had already hashed. Later splits in the
same buffer were skipped and the rolling hash no longer covered the bytes
its window held.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..94a3af6 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,7 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // keep the window: it carries on across the split
+                let discard_ct = i + 1 - RSYNC_LENGTH;
+                state.offset = RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
-- 
2.43.0


From 66255723762b0871853f5b0b9a79af7bf3356494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 05/18] fix: zstd: find_chunk_edge does not panic on a buffer
 shorter than before

While collecting the first 32 bytes, a buffer shorter than the number of
bytes already consumed (an empty one, for instance) made the slice start
lie after its end. All other algorithms treat such a buffer as one
without new data.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 94a3af6..ab91cd8 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -193,7 +193,9 @@ impl Chunk for Zstd {
     ) -> (Option<usize>, usize) {
         if state.offset < RSYNC_LENGTH {
             // push some data in
-            let seed_b = &data[state.offset..std::cmp::min(RSYNC_LENGTH, data.len())];
+            let seed_b = data
+                .get(state.offset..std::cmp::min(RSYNC_LENGTH, data.len()))
+                .unwrap_or(&[]);
             state.append(seed_b);
             state.offset += seed_b.len();
 
-- 
2.43.0


From 719d362d40139c11eade3bc2b8ed3cd3b2a65068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 06/18] fix: mii: push starts afresh after a split

MiiIncr::push set the previous byte to 0 after a split instead of 0xff, so
the first byte of every later chunk counted as an increment and the
incremental interface split earlier than find_chunk_edge.
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 2e8841e6fde919b6254b3734b670c887b267cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 07/18] fix: buzhash: remove the leaving byte with the full
 rotation

A byte that leaves a window of k bytes has been rotated k times, that is
k modulo the 32 bits of the hash, not k modulo 8. For windows with k % 32
of 8 or more the byte was not removed and the hash depended on all bytes
since the last split.
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From c8bc97caad428718f5ef2c4458fdcac832eacfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 08/18] fix: buzhash: find_chunk_edge applies the maximum chunk
 size

The check was commented out because the index into the buffer is not the
length of the chunk. Track that length in the search state, and split
where BuzHashIncr does.
---
 src/buzhash.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..920dcde 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -132,21 +132,17 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
     ) -> (Option<usize>, usize) {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
+            state.chunk_len += 1;
 
             if (state.state.h & self.mask) == self.mask {
                 state.reset();
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if state.chunk_len > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -173,12 +169,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 pub struct BuzHashSearchState {
     offset: usize,
     state: BuzHashState,
+    /// number of bytes since the last chunk edge
+    chunk_len: u64,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
         self.state.reset();
+        self.chunk_len = 0;
     }
 }
 
-- 
2.43.0


From 73606ca462a8e819f5f93614f78081f15fa81594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 09/18] fix: bup: roll_byte uses the whole window whatever its
 length

The position in the circular window was advanced with a mask of its
length, which skips entries unless the length is a power of two. The
digest then covered the wrong bytes.
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..a525cbb 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -198,7 +198,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 86758b60bede0e98ad51e8f3f4c2fef102fa953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 10/18] fix: bup: push starts afresh after a split

RollSumIncr::push kept its checksum and window across a split, while
find_chunk_edge, like bup itself, starts the next chunk with a fresh
checksum. The two interfaces disagreed about every split that follows
another one within a window.
---
 src/bup.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index a525cbb..1ff949e 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -186,6 +186,15 @@ impl RollSumState {
 }
 
 impl RollSumIncr {
+    fn reset(&mut self) {
+        let params = RollSum::with_window(self.window.len());
+        self.state.reset(&params);
+        for b in self.window.iter_mut() {
+            *b = 0;
+        }
+        self.wofs = Wrapping(0);
+    }
+
     pub fn digest(&self) -> u32 {
         self.state.digest()
     }
@@ -226,6 +235,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From df3ac0c154c662ad3809382fca8f9d62d5871632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 11/18] fix: fastcdc: find_chunk_edge does not exceed the
 maximum size

A forced split at the maximum size is placed before the byte at the
returned index, a split by hash after it. find_chunk_edge added one in
both cases: chunks were one byte over the maximum, and when the maximum
was reached at the end of the buffer the returned edge and discard count
were outside of it.
---
 src/fastcdc.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..ebf834a 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -76,7 +76,10 @@ impl<'a> Chunk for FastCdc<'a> {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            // the byte that matches ends the chunk
+            Some((i, true)) => (Some(i + 1), i + 1),
+            // the chunk is at its maximum size without the byte at `i`
+            Some((i, false)) => (Some(i), i),
             None => (None, data.len()),
         }
     }
@@ -140,7 +143,9 @@ impl FastCdcState {
         self.fp = Wrapping(0);
     }
 
-    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<usize> {
+    /// Returns the index of the edge, and whether it is there because of a match at that index (as
+    /// opposed to the maximum size).
+    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<(usize, bool)> {
         // global start/index
         let mut gi = self.l;
         // global end
@@ -177,7 +182,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_S) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, true));
             }
 
             gi += 1;
@@ -188,7 +193,7 @@ impl FastCdcState {
             if gi >= params.max_size {
                 // no match found, emit fixed match at MAX_SIZE
                 self.reset();
-                return Some(i);
+                return Some((i, false));
             }
             if i >= data.len() {
                 break;
@@ -198,7 +203,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_L) == 0 {
                 self.reset();
-                return Some(i);
+                return Some((i, true));
             }
 
             gi += 1;
@@ -215,6 +220,6 @@ impl FastCdcState {
 
 impl<'a> ChunkIncr for FastCdcIncr<'a> {
     fn push(&mut self, src: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, src)
+        self.state.push(&self.params, src).map(|(i, _)| i)
     }
 }
-- 
2.43.0


From dc5e984f78d52efbf0fdcf257c54de714e9c09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 12/18] fix: fastcdc: apply the maximum size when the normal
 size is above it

The loop with the strict mask ran up to the normal size without looking at
the maximum size.
---
 src/fastcdc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index ebf834a..98d68f1 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -173,7 +173,7 @@ impl FastCdcState {
             if i >= data.len() {
                 break;
             }
-            if gi >= params.normal_size {
+            if gi >= std::cmp::min(params.normal_size, params.max_size) {
                 // go to next set of matches
                 break;
             }
-- 
2.43.0


From a19d6b2b5204acc90628066e7caf002707332cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 13/18] fix: fastcdc: split at the maximum size when it equals
 the minimum

With equal sizes, reaching the maximum at the end of a piece was only
reported when more data followed.
---
 src/fastcdc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 98d68f1..0b802e0 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -151,7 +151,7 @@ impl FastCdcState {
         // global end
         let ge = data.len() as u64 + gi;
 
-        if ge <= params.min_size {
+        if ge <= params.min_size && ge < params.max_size {
             // No split, no processing of data, but we've "consumed" the bytes.
             self.l = ge;
             return None;
-- 
2.43.0


From 1d0e85138ac5d9753a5a0cc358c63bf14a2e15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 14/18] fix: zpaq: find_chunk_edge counts each byte once

The index is already advanced when a byte is fed. Adding one again made
find_chunk_edge split chunks one byte below the minimum size, and one byte
before the incremental interface at the maximum.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From 5e6a5a86bb9cc104b90785378e24347cd86678d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 15/18] fix: zpaq: scale the maximum size like the minimum

zpaq derives both limits from the fragment size in KiB. The maximum was
1024 times too large (508 MiB instead of the documented 508 KiB for the
default).
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..c64fbd9 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From cfb27d8f92c2dac11a22268165a31d659ab106a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 16/18] fix: zpaq: chunks do not exceed the size range

A chunk was only ended once its length was outside of the range, so every
chunk ended by its size was one byte over an inclusive maximum (and at an
exclusive one). End it where another byte would leave the range, and let
the ranges made from an average or a maximum size include that maximum,
as in zpaq.
---
 src/zpaq.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index c64fbd9..7ea0f44 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -152,8 +152,9 @@ impl Zpaq {
     }
     */
 
-    fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+    /// `len` is the length of the chunk so far
+    fn split_here(&self, hash: u32, len: u64) -> bool {
+        (hash < self.max_hash && !self.range.under_min(&len)) || self.range.exceeds_max(&(len + 1))
     }
 }
 
-- 
2.43.0


From 34ab8c757f96d52fe5c3e65cc3f6e83fefcdbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 17/18] fix: zpaq: the average from a maximum size is a quarter
 of it

go-dedup calculates the average as a power of 2 in KiB, the rest of this
module uses bytes: with_max_size and with_range asked for chunks 1024
times smaller than documented. For a maximum below 8 KiB the average
came out as 2**0, for which there is no threshold, and the constructor
panicked (or, without overflow checks, made a threshold of 1).
---
 src/zpaq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7ea0f44..45a67f0 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -52,10 +52,10 @@ pub struct Zpaq {
 }
 
 impl Zpaq {
-    /* this is taken from go-dedup */
+    /* this is taken from go-dedup, except that go-dedup calculates it in KiB */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        (max as f64 / 4f64).log2().max(1f64).min(32f64) as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From 9bc9bfc2c31cd085bcbf5634deaedf9d8cb31b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 18/18] fix: zpaq: with_range accepts any lower limit

Guessing the average of a range without an upper limit multiplied the
lower one by 64, which overflows from 2**58 on.
---
 src/zpaq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 45a67f0..29e5c4e 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -65,7 +65,7 @@ impl Zpaq {
             Bound::Excluded(i) => *i - 1,
             Bound::Unbounded => {
                 /* try to guess based on first */
-                64 * match range.start_bound() {
+                match range.start_bound() {
                     Bound::Included(i) => *i,
                     Bound::Excluded(i) => *i + 1,
                     Bound::Unbounded => {
@@ -73,6 +73,7 @@ impl Zpaq {
                         return 16;
                     }
                 }
+                .saturating_mul(64)
             }
         };
 
-- 
2.43.0

