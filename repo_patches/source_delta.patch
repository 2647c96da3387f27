From 3dc7a858fda6247a74e80e5fc063caeda5115ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 01/27] verification hook: reduced shard geometry behind
 cfg(candystore_verif_small)

---
 src/lib.rs   | 2 ++
 src/shard.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 66fac29..870f6c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,6 +45,8 @@
 //! }
 //! ```
 
+#![allow(unexpected_cfgs)] // candystore_verif_small is set by the verification harness only
+
 mod hashing;
 mod lists;
 mod queues;
diff --git a/src/shard.rs b/src/shard.rs
index 6859359..10d551a 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -33,9 +33,17 @@ use crate::{
 //
 // other good combinations are 32/512, 32/1024, 64/256, 64/1024, 128/512, 256/256
 //
+#[cfg(not(candystore_verif_small))]
 pub(crate) const NUM_ROWS: usize = 64;
+#[cfg(not(candystore_verif_small))]
 pub(crate) const ROW_WIDTH: usize = 512;
 
+// reduced shard geometry, only ever enabled by the verification harness (RUSTFLAGS --cfg)
+#[cfg(candystore_verif_small)]
+pub(crate) const NUM_ROWS: usize = 2;
+#[cfg(candystore_verif_small)]
+pub(crate) const ROW_WIDTH: usize = 4;
+
 #[repr(C)]
 struct ShardRow {
     signatures: [u32; ROW_WIDTH],
-- 
2.43.0


From e33e7d2e1b2e503b371621ffc15e7f98ba1bdd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 02/27] fix: compare the expected value of replace_in_list with
 the item's value, not with its index

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From d539d1715afed0d93ad1a4dc72a6f7003e67cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 03/27] fix: removing the only element of a queue by index must
 not move both ends

---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From b4af3f84b9ba43994e07ca302e98a153f6dd5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 04/27] fix: a rejected list, queue or big-value operation must
 not leave partial changes

---
 src/lists.rs  | 19 +++++++++++++++++++
 src/queues.rs | 14 ++++++++++++++
 src/store.rs  | 38 +++++++++++++++++++++++---------------
 3 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..374fead 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -142,6 +142,21 @@ impl CandyStore {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
 
+    /// Checks that an item can be added to a list, before anything is changed
+    fn ensure_list_item_fits(
+        &self,
+        list_key_len: usize,
+        item_key_len: usize,
+        val_len: usize,
+    ) -> Result<()> {
+        self.ensure_entry_fits(list_key_len + LIST_NAMESPACE.len(), size_of::<List>())?;
+        self.ensure_entry_fits(size_of::<ChainKey>(), size_of::<PartedHash>())?;
+        self.ensure_entry_fits(
+            item_key_len + size_of::<PartedHash>() + ITEM_NAMESPACE.len(),
+            val_len + size_of::<u64>(),
+        )
+    }
+
     fn _insert_to_list(
         &self,
         list_key: Vec<u8>,
@@ -149,6 +164,7 @@ impl CandyStore {
         mut val: Vec<u8>,
         mode: InsertMode,
     ) -> Result<InsertToListStatus> {
+        let (list_key_len, item_key_len) = (list_key.len(), item_key.len());
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
@@ -186,6 +202,8 @@ impl CandyStore {
             return Ok(InsertToListStatus::DoesNotExist);
         }
 
+        self.ensure_list_item_fits(list_key_len, item_key_len, val.len())?;
+
         // get of create the list
         let res = self.get_or_create_raw(
             &list_key,
@@ -297,6 +315,7 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            self.ensure_list_item_fits(list_key.len(), item_key.len(), val.len())?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..0d11ec0 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,8 +111,18 @@ impl CandyStore {
         item_key
     }
 
+    /// Checks that an element can be added to a queue, before anything is changed
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key_len: usize, val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(queue_key_len + QUEUE_NAMESPACE.len(), size_of::<Queue>())?;
+        self.ensure_entry_fits(
+            queue_key_len + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len(),
+            val_len,
+        )
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+        self.ensure_queue_item_fits(queue_key.len(), val.len())?;
         let _guard = self.lock_list(queue_ph);
 
         let status = self.get_or_create_raw(
@@ -328,6 +338,10 @@ impl CandyStore {
         items: impl Iterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
+        let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_fits(queue_key.len(), item.as_ref().len())?;
+        }
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 74d9877..52fead7 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,35 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    /// Checks that an entry of the given (full) key and value sizes can be inserted. Compound operations use it
+    /// to fail before they have changed anything
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
+        Ok(())
+    }
 
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+        self.ensure_entry_fits(full_key.len(), val.len())?;
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -529,8 +534,11 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        let key = key.as_ref();
+        let val = val.as_ref();
+        self.ensure_queue_item_fits(key.len(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
         Ok(existed)
     }
 
-- 
2.43.0


From e67383cadaa3c33691263566c1fabbd2d87ea9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 05/27] fix: an empty big value must be readable

---
 src/store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index 52fead7..1382b62 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -538,7 +538,9 @@ impl CandyStore {
         let val = val.as_ref();
         self.ensure_queue_item_fits(key.len(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        // an empty value is stored as a single empty chunk, to tell it from a missing one
+        let empty = val.is_empty().then_some(val);
+        self.extend_queue(key, val.chunks(MAX_VALUE_SIZE).chain(empty))?;
         Ok(existed)
     }
 
-- 
2.43.0


From eaa9cf25caecff01c29ef88d80311e43751faa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 06/27] fix: the cookie of a finished iteration must not
 restart it

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 1382b62..d7eae65 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: (cookie >> 32) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From da912cbada3d50648d20d76fbf4a3bec8a6f8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 07/27] fix: do not panic when more keys are expected than the
 maximal number of shards holds

---
 src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..fb19c28 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -167,7 +167,7 @@ impl ShardRouter {
     fn calc_step(num_items: usize) -> u32 {
         let step = (Self::END_OF_SHARDS as f64)
             / (num_items as f64 / Shard::EXPECTED_CAPACITY as f64).max(1.0);
-        1 << (step as u32).ilog2()
+        1 << (step as u32).max(1).ilog2()
     }
     pub(crate) fn calc_num_shards(num_items: usize) -> u32 {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
-- 
2.43.0


From 6020d28d73c1090a8cd04b1b618fb2f9de33436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 08/27] fix: inserting colliding keys into a shard that cannot
 be split must not split it forever

---
 src/router.rs |  5 +++++
 src/shard.rs  | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index fb19c28..4ec35fc 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -365,6 +365,11 @@ impl ShardRouter {
                         continue;
                     };
 
+                    ensure!(
+                        sh.can_split(),
+                        "too many colliding keys in shard {:?}, which cannot be split further",
+                        sh.span
+                    );
                     let (bottom, top) = sh.split()?;
 
                     *guard = ShardNode::Vertex(
diff --git a/src/shard.rs b/src/shard.rs
index 10d551a..09d7da6 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -240,6 +240,13 @@ impl MmapFile {
         buf[..key.len()].copy_from_slice(key);
         buf[key.len()..].copy_from_slice(val);
 
+        // offsets are kept in 32 bits
+        ensure!(
+            self.header().write_offset.load(Ordering::SeqCst) + (entry_size as u64)
+                <= u32::MAX as u64,
+            "shard file is full"
+        );
+
         // atomically allocate some area. it may leak if the IO below fails or if we crash before updating the
         // offsets_and_size array, but we're okay with leaks
         let write_offset = self
@@ -541,6 +548,11 @@ impl Shard {
         Ok(())
     }
 
+    /// a shard that holds a single selector cannot be split any further
+    pub(crate) fn can_split(&self) -> bool {
+        self.span.end - self.span.start > 1
+    }
+
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
@@ -1004,6 +1016,7 @@ impl Shard {
                     } else if file.header().write_offset.load(Ordering::Relaxed)
                         + (full_key.len() + val.len()) as u64
                         > self.config.max_shard_size as u64
+                        && self.can_split()
                     {
                         return Ok(InsertStatus::SplitNeeded);
                     }
-- 
2.43.0


From 77fac8fd968ae5874bb476311fd80dcaa4793c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 09/27] fix: merging shards must not deadlock on an unbalanced
 tree, nor merge stale shards again

---
 src/router.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 4ec35fc..930c990 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -409,8 +409,10 @@ impl ShardRouter {
             return Ok(None);
         }
 
-        let bottom_guard = bottom.node.write();
-        let top_guard = top.node.write();
+        // the root is exclusively locked by our caller, and we may visit the same node more than once as we
+        // recurse, so these must not be exclusive
+        let bottom_guard = bottom.node.read_recursive();
+        let top_guard = top.node.read_recursive();
 
         match (&*bottom_guard, &*top_guard) {
             (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
@@ -453,9 +455,9 @@ impl ShardRouter {
                 let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
                 match (m1, m2) {
                     (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
+                    // a side that could not be merged may nevertheless have had some of its shards merged, so
+                    // these nodes are stale and must not be merged again
+                    _ => Ok(None),
                 }
             }
         }
@@ -483,18 +485,21 @@ impl ShardRouter {
         {
             let mut guard = self.node.write();
 
-            match &*guard {
-                ShardNode::Leaf(_) => None,
+            let res = match &*guard {
+                ShardNode::Leaf(_) => Ok(None),
                 ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
+                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)
                 }
             };
 
+            // some shards may have been merged even if we failed halfway
+
             *guard = Self::treeify(
                 Self::load(&self.config, &self.stats, &self.threadpool)?,
                 &self.stats,
                 &self.threadpool,
             );
+            res?;
         }
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
-- 
2.43.0


From 17fcc6decea1ea672aa7f0fe428c7734e7b18d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 10/27] fix: compaction must not move entries between columns,
 iterators would skip or repeat them

---
 src/shard.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 09d7da6..a7260d9 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -510,26 +510,25 @@ impl Shard {
             let _row_guard = row_locks[row_idx].write();
             let src_row = src.row(row_idx);
             let target_row = target.row_mut(row_idx);
-            let mut target_col = 0;
 
-            for (src_col, &sig) in src_row.signatures.iter().enumerate() {
+            // entries keep their column, so that iterators (and their cookies) remain valid
+            for (col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
                 }
-                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
+                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[col])?;
 
                 assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
-                    "row={row_idx} col={target_col} sig={}",
-                    target_row.signatures[target_col]
+                    first_row || target_row.signatures[col] == INVALID_SIG,
+                    "row={row_idx} col={col} sig={}",
+                    target_row.signatures[col]
                 );
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
-                target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target_row.offsets_and_sizes[col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
-                target_row.signatures[target_col] = ph.signature();
+                target_row.signatures[col] = ph.signature();
                 target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
-                target_col += 1;
             }
 
             target
-- 
2.43.0


From b38ea6a611e6717a31e0c8fbe8b2553e078acf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 11/27] fix: recount the entries of a shard when opening it, a
 crash may leave the counters off

---
 src/shard.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index a7260d9..fcf23eb 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -215,6 +215,21 @@ impl MmapFile {
         &mut self.header_mut().rows.0[row_idx]
     }
 
+    // the counters are not updated atomically with the rows, so they may be off after a crash
+    fn recount_entries(&self) {
+        let header = self.header();
+        let num_entries: usize = header
+            .rows
+            .0
+            .iter()
+            .map(|row| row.signatures.iter().filter(|&&s| s != INVALID_SIG).count())
+            .sum();
+        header.num_inserts.store(
+            header.num_removals.load(Ordering::Relaxed) + num_entries as u64,
+            Ordering::Relaxed,
+        );
+    }
+
     // reading doesn't require holding any locks - we only ever extend the file, never overwrite data
     fn read_kv(&self, stats: &InternalStats, offset_and_size: u64) -> Result<KVPair> {
         let klen = (offset_and_size >> 48) as usize;
@@ -449,6 +464,7 @@ impl Shard {
                 mmap_file = target;
             }
         }
+        mmap_file.recount_entries();
 
         Ok(Self {
             span,
-- 
2.43.0


From 71eaa7d5f9ab3ad961a4504448ea4cd28104d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 12/27] fix: a crash while a shard file is created must not
 make the store unopenable

---
 src/shard.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index fcf23eb..6e36e39 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -174,8 +174,10 @@ impl MmapFile {
         };
 
         let header = unsafe { &mut *(mmap.as_ptr() as *mut ShardHeader) };
-        header.metadata.magic = SHARD_FILE_MAGIC;
+        // the magic marks the file as initialized, so it must come last
         header.metadata.version = SHARD_FILE_VERSION;
+        std::sync::atomic::fence(Ordering::SeqCst);
+        header.metadata.magic = SHARD_FILE_MAGIC;
 
         Ok(Self { file, mmap })
     }
@@ -381,6 +383,18 @@ pub(crate) struct Shard {
 impl Shard {
     pub(crate) const EXPECTED_CAPACITY: usize = (NUM_ROWS * ROW_WIDTH * 9) / 10; // ~ 29,500
 
+    // a file that was created but whose magic was not yet written; such a file has no entries
+    fn is_uninitialized(file: &File) -> Result<bool> {
+        let mut meta_header = MetaHeader::default();
+        file.read_exact_at(bytes_of_mut(&mut meta_header), 0)?;
+        if meta_header.magic != [0; 8] {
+            return Ok(false);
+        }
+        let mut rest = vec![0u8; HEADER_SIZE as usize - size_of::<MetaHeader>()];
+        file.read_exact_at(&mut rest, size_of::<MetaHeader>() as u64)?;
+        Ok(rest.iter().all(|&b| b == 0))
+    }
+
     pub(crate) fn open(
         span: Range<u32>,
         truncate: bool,
@@ -399,6 +413,11 @@ impl Shard {
             .open(&filename)?;
 
         let mut file_size = file.metadata()?.len();
+        if file_size >= HEADER_SIZE && Self::is_uninitialized(&file)? {
+            // we crashed right after creating it
+            file.set_len(0)?;
+            file_size = 0;
+        }
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
             let sz = file.read(bytes_of_mut(&mut meta_header))?;
-- 
2.43.0


From eaa06895bbada4ef7193a69eda0726847c5a699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 13/27] fix: a crash while the store is created or cleared must
 not make it unopenable

---
 src/router.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 930c990..ed64b7c 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -50,6 +50,28 @@ fn test_consolidate_ranges() {
     );
 }
 
+// the parts of 0..end that are not covered by `ranges` (sorted and disjoint), as aligned power-of-two ranges
+fn find_gaps(ranges: &[Range<u32>], end: u32) -> Vec<Range<u32>> {
+    let mut gaps = vec![];
+    let mut start = 0;
+    for next in ranges.iter().cloned().chain([end..end]) {
+        while start < next.start {
+            let mut len = if start == 0 {
+                end
+            } else {
+                1 << start.trailing_zeros()
+            };
+            while start + len > next.start {
+                len /= 2;
+            }
+            gaps.push(start..start + len);
+            start += len;
+        }
+        start = next.end;
+    }
+    gaps
+}
+
 enum ShardNode {
     Leaf(Shard),
     Vertex(Arc<ShardRouter>, Arc<ShardRouter>),
@@ -150,11 +172,24 @@ impl ShardRouter {
             )?;
         }
 
+        // we crashed while creating or clearing the store, so some shards may be missing
+        let gaps = if shards_to_keep.is_empty() {
+            vec![]
+        } else {
+            find_gaps(&shards_to_keep, Self::END_OF_SHARDS)
+        };
+        let mut spans: Vec<(Range<u32>, bool)> = shards_to_keep
+            .into_iter()
+            .map(|span| (span, false))
+            .chain(gaps.into_iter().map(|span| (span, true)))
+            .collect();
+        spans.sort_by_key(|(span, _)| span.start);
+
         let mut shards = vec![];
-        for span in shards_to_keep {
+        for (span, missing) in spans {
             shards.push(Shard::open(
                 span,
-                false,
+                missing,
                 config.clone(),
                 stats.clone(),
                 threadpool.clone(),
-- 
2.43.0


From 97a51b43c9a8562cef74a072ba5716129afe80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 14/27] verification hook: a second reduced geometry with wider
 rows (candystore_verif_wide)

---
 src/lib.rs   | 2 +-
 src/shard.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 870f6c4..9aa6bc1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,7 +45,7 @@
 //! }
 //! ```
 
-#![allow(unexpected_cfgs)] // candystore_verif_small is set by the verification harness only
+#![allow(unexpected_cfgs)] // candystore_verif_small/_wide are set by the verification harness only
 
 mod hashing;
 mod lists;
diff --git a/src/shard.rs b/src/shard.rs
index 6e36e39..bfd871d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -41,8 +41,10 @@ pub(crate) const ROW_WIDTH: usize = 512;
 // reduced shard geometry, only ever enabled by the verification harness (RUSTFLAGS --cfg)
 #[cfg(candystore_verif_small)]
 pub(crate) const NUM_ROWS: usize = 2;
-#[cfg(candystore_verif_small)]
+#[cfg(all(candystore_verif_small, not(candystore_verif_wide)))]
 pub(crate) const ROW_WIDTH: usize = 4;
+#[cfg(all(candystore_verif_small, candystore_verif_wide))]
+pub(crate) const ROW_WIDTH: usize = 16;
 
 #[repr(C)]
 struct ShardRow {
-- 
2.43.0


From 0ea2c7fb21b473a742bac1d4dd36e2c69e4ffac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 15/27] fix: popping from and promoting in a list must be
 atomic

---
 src/lists.rs | 87 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 26 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 374fead..166e213 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,6 +163,7 @@ impl CandyStore {
         item_key: Vec<u8>,
         mut val: Vec<u8>,
         mode: InsertMode,
+        promote: bool,
     ) -> Result<InsertToListStatus> {
         let (list_key_len, item_key_len) = (list_key.len(), item_key.len());
         let (list_ph, list_key) = self.make_list_key(list_key);
@@ -170,6 +171,11 @@ impl CandyStore {
 
         let _guard = self.lock_list(list_ph);
 
+        if promote {
+            self.ensure_list_item_fits(list_key_len, item_key_len, val.len())?;
+            self.remove_from_locked_list(list_ph, &list_key, &item_key)?;
+        }
+
         // if the item already exists, it's already part of the list. just update it and preserve the index
         if let Some(mut existing_val) = self.get_raw(&item_key)? {
             match mode {
@@ -314,11 +320,7 @@ impl CandyStore {
         val: Vec<u8>,
         promote: bool,
     ) -> Result<SetStatus> {
-        if promote {
-            self.ensure_list_item_fits(list_key.len(), item_key.len(), val.len())?;
-            self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
-        }
-        match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
+        match self._insert_to_list(list_key, item_key, val, InsertMode::Set, promote)? {
             InsertToListStatus::Created(_v) => Ok(SetStatus::CreatedNew),
             InsertToListStatus::Replaced(v) => Ok(SetStatus::PrevValue(v)),
             _ => unreachable!(),
@@ -354,7 +356,13 @@ impl CandyStore {
         val: Vec<u8>,
         expected_val: Option<&[u8]>,
     ) -> Result<ReplaceStatus> {
-        match self._insert_to_list(list_key, item_key, val, InsertMode::Replace(expected_val))? {
+        match self._insert_to_list(
+            list_key,
+            item_key,
+            val,
+            InsertMode::Replace(expected_val),
+            false,
+        )? {
             InsertToListStatus::DoesNotExist => Ok(ReplaceStatus::DoesNotExist),
             InsertToListStatus::Replaced(v) => Ok(ReplaceStatus::PrevValue(v)),
             InsertToListStatus::WrongValue(v) => Ok(ReplaceStatus::WrongValue(v)),
@@ -388,7 +396,13 @@ impl CandyStore {
         item_key: Vec<u8>,
         default_val: Vec<u8>,
     ) -> Result<GetOrCreateStatus> {
-        match self._insert_to_list(list_key, item_key, default_val, InsertMode::GetOrCreate)? {
+        match self._insert_to_list(
+            list_key,
+            item_key,
+            default_val,
+            InsertMode::GetOrCreate,
+            false,
+        )? {
             InsertToListStatus::ExistingValue(v) => Ok(GetOrCreateStatus::ExistingValue(v)),
             InsertToListStatus::Created(v) => Ok(GetOrCreateStatus::CreatedNew(v)),
             _ => unreachable!(),
@@ -444,8 +458,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self.remove_from_locked_list(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // `list_key` and `item_key` are full keys; must be called with the list locked
+    fn remove_from_locked_list(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -457,7 +480,7 @@ impl CandyStore {
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -470,9 +493,9 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
@@ -484,7 +507,7 @@ impl CandyStore {
         }))?;
 
         // remove item
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         Ok(Some(existing_val))
     }
@@ -695,6 +718,30 @@ impl CandyStore {
         Ok(None)
     }
 
+    fn _pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+
+        let mut range = list.head_idx..list.tail_idx;
+        loop {
+            let Some(idx) = (if fwd { range.next() } else { range.next_back() }) else {
+                return Ok(None);
+            };
+            let Some((_, mut k, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
+                continue;
+            };
+            if let Some(v) = self.remove_from_locked_list(list_ph, &list_key, &k)? {
+                k.truncate(k.len() - size_of::<PartedHash>() - ITEM_NAMESPACE.len());
+                return Ok(Some((k, v)));
+            }
+        }
+    }
+
     /// Removes and returns the first (head) element of the list
     pub fn pop_list_head<B: AsRef<[u8]> + ?Sized>(&self, list_key: &B) -> Result<Option<KVPair>> {
         self.owned_pop_list_head(list_key.as_ref().to_owned())
@@ -702,13 +749,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -718,13 +759,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, false)
     }
 
     /// Returns the estimated list length
-- 
2.43.0


From 245a181cfe6441e49e57048c558535b3993a9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 16/27] fix: clearing and merging must wait for running
 compactions, which still use the files

---
 src/router.rs | 17 +++++++++++++++++
 src/shard.rs  |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index ed64b7c..2bd20c9 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -87,6 +87,18 @@ impl ShardNode {
     fn len(&self) -> u32 {
         self.span().end - self.span().start
     }
+    // waits for all compactions to finish, also if some fail. the caller must hold the node exclusively, so that
+    // new ones cannot begin
+    fn wait_for_compactions(&self) -> Result<()> {
+        match self {
+            Self::Leaf(sh) => sh.wait_for_compaction(),
+            Self::Vertex(bottom, top) => {
+                let res = bottom.node.read().wait_for_compactions();
+                top.node.read().wait_for_compactions()?;
+                res
+            }
+        }
+    }
 }
 
 pub(crate) struct ShardRouter {
@@ -331,6 +343,8 @@ impl ShardRouter {
 
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
+        // compaction threads must not touch the files we remove; it doesn't matter if they fail
+        _ = guard.wait_for_compactions();
 
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
@@ -348,6 +362,7 @@ impl ShardRouter {
                 || filename.starts_with("compact_")
                 || filename.starts_with("bottom_")
                 || filename.starts_with("top_")
+                || filename.starts_with("merge_")
             {
                 std::fs::remove_file(entry.path())?;
             }
@@ -519,6 +534,8 @@ impl ShardRouter {
 
         {
             let mut guard = self.node.write();
+            // we're going to reopen all shards, while compaction threads may still be writing to some
+            guard.wait_for_compactions()?;
 
             let res = match &*guard {
                 ShardNode::Leaf(_) => Ok(None),
diff --git a/src/shard.rs b/src/shard.rs
index bfd871d..b10b663 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -950,7 +950,7 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From f4c5355b285edb36e831faa0ff6ac066ae3950ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 17/27] fix: statistics taken during concurrent operations must
 not underflow

---
 src/shard.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index b10b663..04e37c8 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1134,11 +1134,17 @@ impl Shard {
         self.wait_for_compaction()?;
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
+        // the order matters: others may be changing these, but we must never see more bytes wasted than written
+        // or more entries removed than inserted
+        let wasted_bytes = hdr.wasted_bytes.load(Ordering::SeqCst) as usize;
+        let write_offset = hdr.write_offset.load(Ordering::SeqCst) as usize;
+        let num_removals = hdr.num_removals.load(Ordering::SeqCst) as usize;
+        let num_inserts = hdr.num_inserts.load(Ordering::SeqCst) as usize;
         Ok(ShardStats {
-            write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
-            wasted_bytes: hdr.wasted_bytes.load(Ordering::Relaxed) as usize,
-            num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
-            num_removals: hdr.num_removals.load(Ordering::Relaxed) as usize,
+            write_offset,
+            wasted_bytes,
+            num_inserts,
+            num_removals,
         })
     }
 }
-- 
2.43.0


From 35f4db69f261590e70dfad7748dbfeafb6a24c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 18/27] fix: aggregated flushes must not deadlock with a
 compaction or split that begins

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 04e37c8..512bcb0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -580,7 +580,8 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        // with flush aggregation we're called while already holding it for reading
+        self.files.read_recursive().0.file.sync_data()?;
         Ok(())
     }
 
-- 
2.43.0


From caa5b33e1a99483b133a384ea40cd2190761adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 19/27] fix: a file without magic but of another version is not
 an uninitialized one

---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 512bcb0..67d69a0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -389,7 +389,9 @@ impl Shard {
     fn is_uninitialized(file: &File) -> Result<bool> {
         let mut meta_header = MetaHeader::default();
         file.read_exact_at(bytes_of_mut(&mut meta_header), 0)?;
-        if meta_header.magic != [0; 8] {
+        if meta_header.magic != [0; 8]
+            || (meta_header.version != 0 && meta_header.version != SHARD_FILE_VERSION)
+        {
             return Ok(false);
         }
         let mut rest = vec![0u8; HEADER_SIZE as usize - size_of::<MetaHeader>()];
-- 
2.43.0


From 07a3fc6cda6c8469721bae9fa1db600b09469fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 20/27] fix: clearing a shard of an unsupported version must
 also discard its unfinished compaction

---
 src/shard.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 67d69a0..4cd68b2 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -409,6 +409,9 @@ impl Shard {
         let filename = config
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", span.start, span.end));
+        let compacted_filename = config
+            .dir_path
+            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         let mut file = OpenOptions::new()
             .create(true)
             .read(true)
@@ -430,6 +433,8 @@ impl Shard {
                 || meta_header.version != SHARD_FILE_VERSION
             {
                 if config.clear_on_unsupported_version {
+                    // an unfinished compaction of this file must not bring entries back
+                    _ = std::fs::remove_file(&compacted_filename);
                     file.set_len(0)?;
                     file_size = 0;
                 } else {
@@ -444,6 +449,7 @@ impl Shard {
 
             if file_size != 0 && file_size < HEADER_SIZE {
                 if config.clear_on_unsupported_version {
+                    _ = std::fs::remove_file(&compacted_filename);
                     file.set_len(0)?;
                     file_size = 0;
                 } else {
@@ -470,9 +476,6 @@ impl Shard {
 
         let mut mmap_file = MmapFile::new(file, config.mlock_headers)?;
 
-        let compacted_filename = config
-            .dir_path
-            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-- 
2.43.0


From e8ec0979b133eb9750ad369ee22c5976b2997050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 21/27] fix: flushed data must stay durable through
 compactions, splits and merges

---
 src/shard.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 4cd68b2..d212507 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -486,6 +486,7 @@ impl Shard {
             {
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                target.file.sync_data()?;
                 std::fs::rename(compacted_filename, filename)?;
                 mmap_file = target;
             }
@@ -586,7 +587,12 @@ impl Shard {
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
         // with flush aggregation we're called while already holding it for reading
-        self.files.read_recursive().0.file.sync_data()?;
+        let files_guard = self.files.read_recursive();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // rows that were already compacted are only updated there
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
@@ -652,6 +658,9 @@ impl Shard {
             }
         }
 
+        // the source may have been flushed, so the files that replace it must not be less durable
+        bottom_file.file.sync_data()?;
+        top_file.file.sync_data()?;
         std::fs::rename(
             bottom_filename,
             self.config
@@ -764,6 +773,8 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
+        // the sources may have been flushed, so the file that replaces them must not be less durable
+        combined_files.0.file.sync_data()?;
         std::fs::rename(tmp_filename, dst_filename)?;
         std::fs::remove_file(bottom_filename)?;
         std::fs::remove_file(top_filename)?;
@@ -1025,6 +1036,8 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
+        // the source may have been flushed, so the file that replaces it must not be less durable
+        target.file.sync_data()?;
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 6bbeeda7d7c3ae97dfe36b50dffb3f218477b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 22/27] fix: elements left over by a crash must not become part
 of a queue, nor be removable

---
 src/queues.rs | 62 +++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 0d11ec0..544dd2c 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -125,20 +125,17 @@ impl CandyStore {
         self.ensure_queue_item_fits(queue_key.len(), val.len())?;
         let _guard = self.lock_list(queue_ph);
 
-        let status = self.get_or_create_raw(
-            &full_queue_key,
-            bytes_of(&Queue {
-                head_idx: Self::FIRST_QUEUE_IDX,
-                tail_idx: Self::FIRST_QUEUE_IDX + 1,
-                num_items: 1,
-            })
-            .to_owned(),
-        )?;
-
-        let item_idx = match status {
-            crate::GetOrCreateStatus::CreatedNew(_) => Self::FIRST_QUEUE_IDX,
-            crate::GetOrCreateStatus::ExistingValue(mut queue_bytes) => {
-                let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let (queue, item_idx) = match self.get_raw(&full_queue_key)? {
+            None => {
+                let queue = Queue {
+                    head_idx: Self::FIRST_QUEUE_IDX,
+                    tail_idx: Self::FIRST_QUEUE_IDX + 1,
+                    num_items: 1,
+                };
+                (queue, Self::FIRST_QUEUE_IDX)
+            }
+            Some(queue_bytes) => {
+                let mut queue = *from_bytes::<Queue>(&queue_bytes);
                 let item_idx = match pos {
                     QueuePos::Head => {
                         queue.head_idx -= 1;
@@ -151,12 +148,13 @@ impl CandyStore {
                     }
                 };
                 queue.num_items += 1;
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-                item_idx
+                (queue, item_idx)
             }
         };
 
+        // a crash may have left an old element at this index, so the new one must be in place before it's visible
         self.set_raw(&self.make_queue_item_key(queue_key, item_idx), val)?;
+        self.set_raw(&full_queue_key, bytes_of(&queue))?;
         Ok(item_idx as usize)
     }
 
@@ -272,23 +270,29 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
+        let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        if !(queue.head_idx..queue.tail_idx).contains(&idx) {
+            // not part of the queue, but it may be a leftover of a crash
+            return Ok(None);
+        }
+
         let Some(val) = self.remove_raw(&self.make_queue_item_key(queue_key, idx as u64))? else {
             return Ok(None);
         };
 
-        if let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? {
-            let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
-            if queue.head_idx == idx {
-                queue.head_idx += 1;
-            } else if queue.tail_idx == idx + 1 {
-                queue.tail_idx -= 1;
-            }
-            queue.num_items -= 1;
-            if queue.is_empty() {
-                self.remove_raw(&full_queue_key)?;
-            } else {
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-            }
+        if queue.head_idx == idx {
+            queue.head_idx += 1;
+        } else if queue.tail_idx == idx + 1 {
+            queue.tail_idx -= 1;
+        }
+        queue.num_items -= 1;
+        if queue.is_empty() {
+            self.remove_raw(&full_queue_key)?;
+        } else {
+            self.set_raw(&full_queue_key, &queue_bytes)?;
         }
 
         Ok(Some(val))
-- 
2.43.0


From 7c4e50fda32d20585573f0b30f8d8564c690c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 23/27] fix: a crash while removing from a list must not leave
 items that are not part of the list

---
 src/lists.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 166e213..23d38cd 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -479,6 +479,17 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // the item goes first: if we crash in the middle, there must not be items that can be looked up but are
+        // not part of the list
+        self.remove_raw(item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -499,16 +510,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -680,12 +681,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From 2dff604a87ec2658a52344ebe0e182af432a19ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 24/27] fix: a failed compaction must be resumed, and must not
 lose entries or break statistics

---
 src/shard.rs | 79 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index d212507..d3480fe 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -9,7 +9,7 @@ use std::{
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
     sync::{
-        atomic::{AtomicU64, AtomicUsize, Ordering},
+        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
         Arc,
     },
     thread::JoinHandle,
@@ -298,6 +298,7 @@ struct CompactionInfo {
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
+    failed: Arc<AtomicBool>,
     t0: Instant,
     src_filename: PathBuf,
     target_filename: PathBuf,
@@ -321,7 +322,9 @@ impl CompactionThreadPool {
                     let Some((info, handle_tx)) = elem else {
                         break;
                     };
+                    let failed = info.failed.clone();
                     let res = Shard::background_compact(info);
+                    failed.store(res.is_err(), Ordering::SeqCst);
                     handle_tx.send(res)?;
                 }
                 Ok(())
@@ -376,6 +379,7 @@ pub(crate) struct Shard {
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
+    compaction_failed: Arc<AtomicBool>,
     #[cfg(feature = "flush_aggregation")]
     sync_agg_mutex: parking_lot::Mutex<()>,
     #[cfg(feature = "flush_aggregation")]
@@ -501,6 +505,7 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
@@ -529,6 +534,7 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
@@ -557,6 +563,8 @@ impl Shard {
             // entries keep their column, so that iterators (and their cookies) remain valid
             for (col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
+                    // an earlier attempt may have failed after copying an entry that was removed since
+                    target_row.signatures[col] = INVALID_SIG;
                     continue;
                 }
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[col])?;
@@ -584,6 +592,29 @@ impl Shard {
         Ok(())
     }
 
+    // if the compaction thread has failed, entries are spread over both files until this succeeds
+    fn complete_compaction(&self, files: &mut (MmapFile, Option<MmapFile>)) -> Result<()> {
+        let Some(ref target) = files.1 else {
+            return Ok(());
+        };
+        Self::do_compaction(&self.row_locks, &files.0, target, &self.stats, &self.config)?;
+        target.recount_entries();
+        target.file.sync_data()?;
+        std::fs::rename(
+            self.config.dir_path.join(format!(
+                "compact_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+            self.config.dir_path.join(format!(
+                "shard_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+        )?;
+        files.0 = files.1.take().unwrap();
+        self.compaction_failed.store(false, Ordering::SeqCst);
+        Ok(())
+    }
+
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
         // with flush aggregation we're called while already holding it for reading
@@ -607,7 +638,8 @@ impl Shard {
             handle.wait()?;
         }
 
-        let files_guard = self.files.write();
+        let mut files_guard = self.files.write();
+        self.complete_compaction(&mut files_guard)?;
 
         let mid = (self.span.start + self.span.end) / 2;
 
@@ -703,8 +735,10 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
-        let bottom_files = bottom.files.write();
-        let top_files = top.files.write();
+        let mut bottom_files = bottom.files.write();
+        let mut top_files = top.files.write();
+        bottom.complete_compaction(&mut bottom_files)?;
+        top.complete_compaction(&mut top_files)?;
 
         let tmp_filename = bottom.config.dir_path.join(format!(
             "merge_{:04x}-{:04x}",
@@ -984,23 +1018,15 @@ impl Shard {
             return Ok(());
         }
 
-        if files_guard.1.is_some() {
-            // if the compaction target exists and the thread is still running -- all good
-            if let Some(ref handle) = *handle_guard {
-                if !handle.finished() {
-                    return Ok(());
-                }
-            } else {
+        // if the compaction target exists and the thread is still running -- all good
+        if let Some(ref handle) = *handle_guard {
+            if files_guard.1.is_some() && !handle.finished() {
                 return Ok(());
             }
         }
 
-        // the thread could've crashed in the middle of a compaction, and here's the place to extract the error
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
-
-        assert!(files_guard.1.is_none());
+        // the thread could've failed in the middle of a compaction, and here's the place to extract the error
+        let res = handle_guard.take().map_or(Ok(()), |handle| handle.wait());
 
         let t0 = Instant::now();
         let src_filename = self.config.dir_path.join(format!(
@@ -1011,12 +1037,17 @@ impl Shard {
             "compact_{:04x}-{:04x}",
             self.span.start, self.span.end
         ));
-        let target = MmapFile::create(&target_filename, &self.config)?;
-        target.header().compacted_up_to.store(0, Ordering::Release);
-        files_guard.1 = Some(target);
+        // a failed compaction is resumed, as some entries have already moved
+        if files_guard.1.is_none() {
+            let target = MmapFile::create(&target_filename, &self.config)?;
+            target.header().compacted_up_to.store(0, Ordering::Release);
+            files_guard.1 = Some(target);
+        }
+        self.compaction_failed.store(false, Ordering::SeqCst);
 
         let handle = self.threadpool.submit(CompactionInfo {
             files: self.files.clone(),
+            failed: self.compaction_failed.clone(),
             stats: self.stats.clone(),
             row_locks: self.row_locks.clone(),
             config: self.config.clone(),
@@ -1026,7 +1057,7 @@ impl Shard {
         })?;
         *handle_guard = Some(handle);
 
-        Ok(())
+        res
     }
 
     fn background_compact(info: CompactionInfo) -> Result<()> {
@@ -1075,6 +1106,9 @@ impl Shard {
                     {
                         return Ok(InsertStatus::SplitNeeded);
                     }
+                } else if self.compaction_failed.load(Ordering::Relaxed) {
+                    // try again
+                    should_compact = Some(0);
                 }
 
                 let status = self.try_replace(file, row_guard, row, ph, &full_key, val, mode)?;
@@ -1150,7 +1184,8 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        // if it failed, it will be resumed
+        _ = self.wait_for_compaction();
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         // the order matters: others may be changing these, but we must never see more bytes wasted than written
-- 
2.43.0


From 9a438bcdc2048a12cc6e711ff4153283f71704bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 25/27] fix: failing to open or remove an unfinished compaction
 must not lose or bring back entries

---
 src/shard.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index d3480fe..3fa9ee6 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -4,7 +4,7 @@ use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
     fs::{File, OpenOptions},
-    io::Read,
+    io::{ErrorKind, Read},
     ops::Range,
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
@@ -281,6 +281,13 @@ impl MmapFile {
     }
 }
 
+fn remove_file_if_exists(filename: &Path) -> Result<()> {
+    match std::fs::remove_file(filename) {
+        Err(e) if e.kind() != ErrorKind::NotFound => Err(e.into()),
+        _ => Ok(()),
+    }
+}
+
 struct TPHandle {
     rx: crossbeam_channel::Receiver<Result<()>>,
 }
@@ -438,7 +445,7 @@ impl Shard {
             {
                 if config.clear_on_unsupported_version {
                     // an unfinished compaction of this file must not bring entries back
-                    _ = std::fs::remove_file(&compacted_filename);
+                    remove_file_if_exists(&compacted_filename)?;
                     file.set_len(0)?;
                     file_size = 0;
                 } else {
@@ -453,7 +460,7 @@ impl Shard {
 
             if file_size != 0 && file_size < HEADER_SIZE {
                 if config.clear_on_unsupported_version {
-                    _ = std::fs::remove_file(&compacted_filename);
+                    remove_file_if_exists(&compacted_filename)?;
                     file.set_len(0)?;
                     file_size = 0;
                 } else {
@@ -481,13 +488,16 @@ impl Shard {
         let mut mmap_file = MmapFile::new(file, config.mlock_headers)?;
 
         if truncate {
-            _ = std::fs::remove_file(compacted_filename);
+            remove_file_if_exists(&compacted_filename)?;
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            let compacted_file = OpenOptions::new()
                 .read(true)
                 .write(true)
-                .open(&compacted_filename)
-            {
+                .open(&compacted_filename);
+            // a compaction that cannot be resumed must not be mistaken for one that doesn't exist, since it already
+            // holds some of the entries
+            if !matches!(compacted_file, Err(ref e) if e.kind() == ErrorKind::NotFound) {
+                let compacted_file = compacted_file?;
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                 target.file.sync_data()?;
-- 
2.43.0


From b3dbad905eb9de0c7faa9049ee3c0ebf4a7a2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 26/27] fix: a failure while merging must not leave shards in
 memory that are no longer on disk

---
 src/router.rs | 100 +++++++++++++-------------------------------------
 src/shard.rs  |   5 ++-
 2 files changed, 29 insertions(+), 76 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 2bd20c9..83cc34f 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -448,69 +448,35 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
-        bottom: &ShardRouter,
-        top: &ShardRouter,
+    // merges the node's descendants, from the bottom up; the caller must hold the root exclusively
+    fn merge_node(
+        node: &mut ShardNode,
         max_fill: usize,
         shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
+    ) -> Result<()> {
+        let ShardNode::Vertex(bottom, top) = &*node else {
+            return Ok(());
+        };
+        let (bottom, top) = (bottom.clone(), top.clone());
+        let mut bottom_guard = bottom.node.write();
+        let mut top_guard = top.node.write();
+        Self::merge_node(&mut bottom_guard, max_fill, shards_to_remove)?;
+        Self::merge_node(&mut top_guard, max_fill, shards_to_remove)?;
+
         if *shards_to_remove == 0 {
-            return Ok(None);
+            return Ok(());
         }
-
-        // the root is exclusively locked by our caller, and we may visit the same node more than once as we
-        // recurse, so these must not be exclusive
-        let bottom_guard = bottom.node.read_recursive();
-        let top_guard = top.node.read_recursive();
-
-        match (&*bottom_guard, &*top_guard) {
-            (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    // a side that could not be merged may nevertheless have had some of its shards merged, so
-                    // these nodes are stale and must not be merged again
-                    _ => Ok(None),
-                }
-            }
+        let (ShardNode::Leaf(b), ShardNode::Leaf(t)) = (&*bottom_guard, &*top_guard) else {
+            return Ok(());
+        };
+        if b.get_stats()?.num_items() > max_fill || t.get_stats()?.num_items() > max_fill {
+            return Ok(());
+        }
+        if let Some(sh) = Shard::merge(b, t)? {
+            *shards_to_remove -= 1;
+            *node = ShardNode::Leaf(sh);
         }
+        Ok(())
     }
 
     pub(crate) fn merge_small_shards(&self, max_fill_level: f32) -> Result<bool> {
@@ -534,24 +500,10 @@ impl ShardRouter {
 
         {
             let mut guard = self.node.write();
-            // we're going to reopen all shards, while compaction threads may still be writing to some
+            // compaction threads may still be writing to some shards
             guard.wait_for_compactions()?;
 
-            let res = match &*guard {
-                ShardNode::Leaf(_) => Ok(None),
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)
-                }
-            };
-
-            // some shards may have been merged even if we failed halfway
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-            res?;
+            Self::merge_node(&mut guard, max_fill, &mut shards_to_remove)?;
         }
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
diff --git a/src/shard.rs b/src/shard.rs
index 3fa9ee6..5a06fbd 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -820,8 +820,9 @@ impl Shard {
         // the sources may have been flushed, so the file that replaces them must not be less durable
         combined_files.0.file.sync_data()?;
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+        // from here on the merged file counts; leftovers are removed when the store is opened
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From fca9b8238c91010a0bdba6b4d5679835c61bfaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 27/27] fix: a failure while clearing must not leave shards in
 memory that are no longer on disk

---
 src/router.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 83cc34f..7bea248 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -346,6 +346,27 @@ impl ShardRouter {
         // compaction threads must not touch the files we remove; it doesn't matter if they fail
         _ = guard.wait_for_compactions();
 
+        let res = self.clear_files().and_then(|_| {
+            Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)
+        });
+        let (shards, res) = match res {
+            Ok(shards) => (shards, Ok(())),
+            Err(e) => {
+                // whatever is left is the content, but we must not go on using removed files
+                let mut shards = Self::load(&self.config, &self.stats, &self.threadpool)?;
+                if shards.is_empty() {
+                    shards =
+                        Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
+                }
+                (shards, Err(e))
+            }
+        };
+        *guard = Self::treeify(shards, &self.stats, &self.threadpool);
+
+        res
+    }
+
+    fn clear_files(&self) -> Result<()> {
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -367,10 +388,6 @@ impl ShardRouter {
                 std::fs::remove_file(entry.path())?;
             }
         }
-
-        let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
-        *guard = Self::treeify(shards, &self.stats, &self.threadpool);
-
         Ok(())
     }
 
-- 
2.43.0

