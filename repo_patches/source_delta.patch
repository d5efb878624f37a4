From 3070ea09597fe6ec45da2d51c81fdea74d2b0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 1/9] fix: lazy lookups and loads on empty and unsharded maps

get() divided by a bucket count of zero on an empty map (panic), and load()
returned an empty map for maps stored in a single chunk.
---
 src/rt.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/rt.rs b/src/rt.rs
index bee9070..aa1d14d 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -246,6 +246,11 @@ where
     /// 2. Iterating over each shard and deserializing its entries
     /// 3. Merging all entries into a single `HashMap`
     pub fn load(&self) -> Result<HashMap<K, V>> {
+        // Maps stored without sharding (and empty maps) live entirely in their own chunk.
+        if self.node.child_count() == 0 {
+            return self.node.decode();
+        }
+
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
         let num_shards = if container_payload.len() >= 4 {
@@ -333,6 +338,11 @@ where
     /// - O(N/S) linear scan within shard (where S = number of shards)
     /// - SIMD-optimized hash comparison on supported platforms
     pub fn get(&self, key: &K) -> Result<Option<V>> {
+        // Maps stored without sharding (and empty maps) live entirely in their own chunk.
+        if self.node.child_count() == 0 {
+            return Ok(self.load()?.remove(key));
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -345,6 +355,9 @@ where
                 .try_into()
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
+        if num_shards == 0 {
+            return Ok(None);
+        } // Empty
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
@@ -452,6 +465,16 @@ where
     pub fn get_lazy(&self, key: &K) -> Result<Option<V::Lazy>> {
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
+        if self.node.child_count() == 0 {
+            // Only an empty map has no entries to look at; entries of an unsharded map have no
+            // chunks of their own, so there is nothing a lazy view could refer to.
+            return match container_payload.first() {
+                None | Some(0) => Ok(None),
+                Some(_) => Err(crate::ParcodeError::Format(
+                    "Lazy lookup requires a map stored with #[parcode(map)]".into(),
+                )),
+            };
+        }
         if container_payload.len() < 4 {
             return Ok(None);
         } // Empty
@@ -462,6 +485,9 @@ where
                 .try_into()
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
+        if num_shards == 0 {
+            return Ok(None);
+        } // Empty
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
-- 
2.43.0


From 3b9fbcc7fc6c3576c16d4a0dd935b91998673b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 2/9] fix: load single-chunk maps whose encoding is shorter
 than 4 bytes

HashMap::from_node returned an empty map for e.g. a HashMap<u8, u8> with one entry.
---
 src/reader.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7acd7ee..bb1fdbc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -530,16 +530,18 @@ where
     V: DeserializeOwned + Send + Sync,
 {
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
+        // Maps stored without sharding (and empty maps) live entirely in their own chunk,
+        // however small its payload is.
+        if node.child_count == 0 {
+            return node.decode();
+        }
+
         // Standard HashMap reconstruction logic (same as before)
         let container_payload = node.read_raw()?;
         if container_payload.len() < 4 {
             return Ok(Self::new());
         }
 
-        if node.child_count == 0 {
-            return node.decode();
-        }
-
         let shards = node.children()?;
         let mut map = Self::new();
 
-- 
2.43.0


From 195eb459ce71406bd05cd162aa1e0db4f5f03096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 3/9] fix: parallel writer falls back to no compression like
 the serial writer

With an unavailable algorithm write() failed where write_sync() succeeded.
---
 src/executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/executor.rs b/src/executor.rs
index 216d151..a6dd760 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -314,7 +314,12 @@ fn process_node<'scope, 'a, W>(
         config.compression_id
     };
 
-    let compressor = match ctx.registry.get(compression_id) {
+    // Fallback to None (ID 0) if requested algorithm unavailable (same as the serial path)
+    let compressor = match ctx
+        .registry
+        .get(compression_id)
+        .or_else(|_| ctx.registry.get(0))
+    {
         Ok(c) => c,
         Err(e) => {
             ctx.signal_error(e);
-- 
2.43.0


From e316531565982e41e8e029ff3fba1394f631377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 4/9] fix: reject chunk references with overflowing or empty
 ranges

A damaged offset/length pair overflowed (panic) or wrapped around.
---
 src/reader.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bb1fdbc..a66250d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -787,13 +787,14 @@ impl ParcodeFile {
     /// * `offset`: Absolute byte offset in the file.
     /// * `length`: Total length of the chunk including metadata.
     fn get_chunk(&self, offset: u64, length: u64) -> Result<ChunkNode<'_>> {
-        if offset + length > self.file_size {
-            return Err(ParcodeError::Format(format!(
-                "Chunk out of bounds: {} + {}",
-                offset, length
-            )));
-        }
-        let chunk_end = usize::try_from(offset + length)
+        // Every chunk holds at least its meta byte.
+        let end = offset
+            .checked_add(length)
+            .filter(|end| length > 0 && *end <= self.file_size)
+            .ok_or_else(|| {
+                ParcodeError::Format(format!("Chunk out of bounds: {} + {}", offset, length))
+            })?;
+        let chunk_end = usize::try_from(end)
             .map_err(|_| ParcodeError::Format("Chunk end exceeds address space".into()))?;
 
         let meta_byte = self
-- 
2.43.0


From 8039df89273bf0bc0044f5591f0a6c39a5a37e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 5/9] fix: reject child references that do not precede their
 parent

A damaged reference could point back to an ancestor and recurse without end.
---
 src/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a66250d..0091c99 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1190,6 +1190,16 @@ impl<'a> ChunkNode<'a> {
             .ok_or_else(|| ParcodeError::Format("Child reference out of bounds".into()))?;
 
         let r = ChildRef::from_bytes(bytes)?;
+        // Children are always written before their parent. Anything else is a damaged reference
+        // and could form a cycle.
+        if r.offset
+            .checked_add(r.length)
+            .is_none_or(|end| end > self.offset)
+        {
+            return Err(ParcodeError::Format(
+                "Child chunk does not precede its parent".into(),
+            ));
+        }
         self.reader.get_chunk(r.offset, r.length)
     }
 
-- 
2.43.0


From c761bd1ada16a3ce548e4c408f51b2f1e6d421f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 6/9] fix: do not trust stored item and shard counts

Damaged counts aborted on allocation, overflowed, or looped over billions of shards.
---
 src/reader.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0091c99..6ada274 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -374,7 +374,10 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
             .map_err(|_| ParcodeError::Serialization("Vector length exceeds usize".into()))?;
 
         // Allocate uninit vec
-        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::with_capacity(count);
+        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::new();
+        uninit_vec
+            .try_reserve_exact(count)
+            .map_err(|_| ParcodeError::Format("Vector length too large".into()))?;
         #[allow(unsafe_code)]
         unsafe {
             uninit_vec.set_len(count);
@@ -961,6 +964,11 @@ impl<'a> ChunkNode<'a> {
 
         for run in shard_runs {
             let items_per_shard = run.item_count as usize;
+            if run.repeat as usize > self.child_count as usize - current_shard_idx {
+                return Err(ParcodeError::Format(
+                    "RLE describes more shards than exist".into(),
+                ));
+            }
             for _ in 0..run.repeat {
                 if current_global_idx.checked_add(items_per_shard).is_none() {
                     return Err(ParcodeError::Format("Integer overflow in RLE".into()));
@@ -983,7 +991,10 @@ impl<'a> ChunkNode<'a> {
         }
 
         // 4. Allocate Uninitialized Buffer
-        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(total_items);
+        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::new();
+        result_buffer
+            .try_reserve_exact(total_items)
+            .map_err(|_| ParcodeError::Format("Collection length too large".into()))?;
         unsafe {
             result_buffer.set_len(total_items);
         }
@@ -1205,19 +1216,20 @@ impl<'a> ChunkNode<'a> {
 
     /// Maps a global item index to a specific (`shard_index`, `internal_index`).
     fn resolve_rle_index(&self, global_index: usize, runs: &[ShardRun]) -> Result<(usize, usize)> {
-        let mut current_base = 0;
-        let mut shard_base = 0;
+        let mut current_base = 0_usize;
+        let mut shard_base = 0_usize;
 
         for run in runs {
             let count = run.item_count as usize;
-            let total_run = count * run.repeat as usize;
+            let total_run = count.saturating_mul(run.repeat as usize);
+            let run_end = current_base.saturating_add(total_run);
 
-            if global_index < current_base + total_run {
+            if global_index < run_end {
                 let offset = global_index - current_base;
                 return Ok((shard_base + (offset / count), offset % count));
             }
-            current_base += total_run;
-            shard_base += run.repeat as usize;
+            current_base = run_end;
+            shard_base = shard_base.saturating_add(run.repeat as usize);
         }
         Err(ParcodeError::Format("Index out of bounds".into()))
     }
-- 
2.43.0


From 6a5a27c32faf9add671fe9b9326e6550b291ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 7/9] fix: iterators over damaged collections end instead of
 underflowing or repeating errors

An empty shard underflowed the item counter or recursed, size hints underflowed,
and an unreadable shard made the streaming iterator return errors forever.
---
 src/reader.rs | 12 ++++++++++--
 src/rt.rs     | 11 +++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6ada274..a9ed66a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1312,6 +1312,7 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
 
         // 2. Buffer empty? Load next shard
         if self.current_shard_idx >= self.container.child_count as usize {
+            self.current_global_idx = self.total_items; // report once, then end
             return Some(Err(ParcodeError::Internal(
                 "Iterator mismatch: runs out of shards".into(),
             )));
@@ -1326,7 +1327,11 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
                 let mut cursor = std::io::Cursor::new(payload.as_ref());
                 let children = node.children()?;
                 let mut child_iter = children.into_iter();
-                T::read_slice_from_shard(&mut cursor, &mut child_iter)
+                let items = T::read_slice_from_shard(&mut cursor, &mut child_iter)?;
+                if items.is_empty() {
+                    return Err(ParcodeError::Format("Empty shard".into()));
+                }
+                Ok(items)
             });
 
         match next_shard_res {
@@ -1335,7 +1340,10 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
                 self.current_shard_idx += 1;
                 self.next()
             }
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                self.current_global_idx = self.total_items; // report once, then end
+                Some(Err(e))
+            }
         }
     }
 }
diff --git a/src/rt.rs b/src/rt.rs
index aa1d14d..fa0bb3a 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -693,6 +693,9 @@ where
                 bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
                     .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
 
+            if len == 0 {
+                return Err(crate::ParcodeError::Format("Empty shard".into()));
+            }
             self.current_pos = cursor.position();
             self.items_left_in_shard = len;
             self.current_payload = Some(payload);
@@ -735,12 +738,16 @@ where
         self.current_pos = cursor.position();
         self.items_left_in_shard -= 1;
         self.items_yielded += 1;
+        if result.is_err() {
+            // The position inside this shard is lost: give up on the rest of it.
+            self.items_left_in_shard = 0;
+        }
 
         Some(result)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.total_items - self.items_yielded;
+        let remaining = self.total_items.saturating_sub(self.items_yielded);
         (remaining, Some(remaining))
     }
 }
@@ -750,7 +757,7 @@ where
     T: ParcodeLazyRef<'a>,
 {
     fn len(&self) -> usize {
-        self.total_items - self.items_yielded
+        self.total_items.saturating_sub(self.items_yielded)
     }
 }
 
-- 
2.43.0


From cac9c2be0c87640eca346f341a4fa261292c85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 8/9] fix: reject impossible LZ4 sizes before allocating

---
 src/compression.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compression.rs b/src/compression.rs
index d96d465..9897541 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -291,6 +291,16 @@ impl Compressor for Lz4Compressor {
     }
 
     fn decompress<'a>(&self, data: &'a [u8]) -> Result<Cow<'a, [u8]>> {
+        // An LZ4 block expands to less than 255 times its size; a larger stored size is damage and
+        // must not be allocated.
+        let (size, block) = lz4_flex::block::uncompressed_size(data)
+            .map_err(|e| ParcodeError::Compression(e.to_string()))?;
+        if size / 255 > block.len() {
+            return Err(ParcodeError::Compression(format!(
+                "Stored size {size} is impossible for a block of {} bytes",
+                block.len()
+            )));
+        }
         let vec = lz4_flex::decompress_size_prepended(data)
             .map_err(|e| ParcodeError::Compression(e.to_string()))?;
         Ok(Cow::Owned(vec))
-- 
2.43.0


From c9ce21615cd0b511860ec7cf0fd6bd0ef0344524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 9/9] fix: inspector shard total no longer overflows on damaged
 counts

---
 src/inspector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 784af44..482188b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -141,7 +141,7 @@ impl ParcodeInspector {
                     let distribution = format!(
                         "Vec<{}> items across {} logical shards",
                         total_items,
-                        runs.iter().map(|r| r.repeat).sum::<u32>()
+                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
                     );
                     return ("Vec Container".to_string(), Some(distribution));
                 }
-- 
2.43.0

