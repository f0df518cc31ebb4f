From 1a563420e06e663441428b3098dfde0ebc15b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 01/60] fix: internal B+ tree page merge keeps every child of
 the right sibling

merge_with_right_sibling skipped the right sibling's first child and, to make
up the count, stored its last child twice: the subtree under the first child
was lost and keys of its range were routed to the wrong child.
---
 .../page_types/b_plus_tree_internal_page.rs   | 35 +++----------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..3a307bc 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -817,36 +817,11 @@ impl<
             self.keys.push(key);
         }
 
-        // For internal nodes, we need to update child pointers
-        // The rightmost pointer of this node should already point to the same
-        // location as the leftmost pointer of the right sibling, so we skip
-        // the first value from the right sibling
-        if !self.values.is_empty() && !right_sibling_values.is_empty() {
-            // Skip the first pointer of the right sibling (p1') because it should be
-            // the same as the last pointer of the left node
-            for i in right_sibling_values.iter().skip(1) {
-                self.values.push(*i);
-            }
-        }
-
-        // Make sure we have n+1 pointers for n keys
-        if !self.keys.is_empty() && self.values.len() != self.keys.len() + 1 {
-            debug!(
-                "After merge - keys: {}, values: {} - invariant requires {} values",
-                self.keys.len(),
-                self.values.len(),
-                self.keys.len() + 1
-            );
-
-            // If we're missing the last pointer, add it from the right sibling's last pointer
-            if self.values.len() == self.keys.len() && !right_sibling_values.is_empty() {
-                self.values
-                    .push(right_sibling_values[right_sibling_values.len() - 1]);
-                debug!(
-                    "Added missing last pointer: {}",
-                    right_sibling_values[right_sibling_values.len() - 1]
-                );
-            }
+        // The parent key separates this node's last child from the right sibling's first
+        // child, so every child of the right sibling is taken over: n + 1 and m + 1
+        // children become n + m + 2 for the n + 1 + m keys.
+        for child in right_sibling_values {
+            self.values.push(child);
         }
 
         // Update the size to match the actual number of keys
-- 
2.43.0


From 174bb030950311ca9cc8c9db1e03dc1367b64887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 02/60] fix: inserting into a collapsed internal root keeps one
 child per key range

Removing the last key of a root leaves one child and no key. The next insert
pushed two more children, so that one key had three children and lookups of
large keys ignored the middle one.
---
 src/storage/page/page_types/b_plus_tree_internal_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 3a307bc..c4240d8 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -177,7 +177,10 @@ impl<
             // For the first key, we need two pointers
             // For now, set both to the same value - the caller will update one of them
             self.keys.push(key);
-            self.values.push(value); // Left pointer
+            // A root whose last key was removed keeps its only child: that one stays on the left
+            if self.values.is_empty() {
+                self.values.push(value); // Left pointer
+            }
             self.values.push(value); // Right pointer
             self.size = 1;
             self.is_dirty = true;
-- 
2.43.0


From 0514bb10468505fdb22729c6885b27e6afa636d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 03/60] fix: a table page insert no longer overwrites a row an
 update has moved

---
 src/storage/page/page_types/table_page.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..cbcd4ea 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -268,11 +268,13 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        // An update may have moved any slot's data, so the free region ends at the lowest one.
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-- 
2.43.0


From 406c7ba491d90fde754aa6c0ef5220f6162484c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 04/60] fix: a damaged table page image is refused instead of
 panicking

---
 src/storage/page/page_types/table_page.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index cbcd4ea..69c7b77 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -721,6 +721,9 @@ impl TablePage {
         debug!("Reading {} tuple info entries", page.header.num_tuples);
         for i in 0..page.header.num_tuples {
             // Read tuple offset and size
+            if offset + 4 > bytes.len() {
+                return Err(format!("Tuple info {} is beyond the end of the page", i));
+            }
             let tuple_offset = u16::from_le_bytes(bytes[offset..offset + 2].try_into().unwrap());
             let size = u16::from_le_bytes(bytes[offset + 2..offset + 4].try_into().unwrap());
             offset += 4;
@@ -740,6 +743,10 @@ impl TablePage {
             debug!("Deserialized meta with size {} bytes", meta_size);
             offset += meta_size;
 
+            if tuple_offset as usize + size as usize > bytes.len() {
+                return Err(format!("Tuple {} is beyond the end of the page", i));
+            }
+
             page.tuple_info.push((tuple_offset, size, meta));
         }
 
-- 
2.43.0


From e74aa13943ee497799bae155cc995bc28e36ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 05/60] fix: table page contents survive eviction from the
 buffer pool

---
 src/storage/page/page_types/table_page.rs | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 69c7b77..2f1e34c 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -334,6 +334,7 @@ impl TablePage {
                 }
 
                 self.is_dirty = true;
+                self.sync_image();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -373,6 +374,7 @@ impl TablePage {
             if end <= self.data.len() {
                 self.data[start..end].copy_from_slice(&tuple_data);
                 self.is_dirty = true;
+                self.sync_image();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -439,6 +441,7 @@ impl TablePage {
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
         self.is_dirty = true;
+        self.sync_image();
 
         debug!(
             "Successfully updated tuple meta. Page is now dirty. num_deleted_tuples: {}",
@@ -549,11 +552,13 @@ impl TablePage {
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
         self.is_dirty = true;
+        self.sync_image();
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
         self.is_dirty = true;
+        self.sync_image();
     }
 
     /// Serializes the page into a fixed-size byte array
@@ -675,6 +680,13 @@ impl TablePage {
         buffer
     }
 
+    /// Brings the byte image, which is what the buffer pool writes out, in line with the
+    /// header and the slots.
+    fn sync_image(&mut self) {
+        let image = self.serialize();
+        self.data.copy_from_slice(&image);
+    }
+
     /// Deserializes a page from a fixed-size byte array
     pub fn deserialize(bytes: &[u8; DB_PAGE_SIZE as usize]) -> Result<Self, String> {
         // Verify page type
@@ -864,6 +876,7 @@ impl TablePage {
 
         self.data[start..end].copy_from_slice(&tuple_data);
         self.is_dirty = true;
+        self.sync_image();
         Ok(())
     }
 
@@ -1035,8 +1048,7 @@ impl TablePage {
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
-            let serialized = self.serialize();
-            self.data.copy_from_slice(&serialized);
+            self.sync_image();
 
             debug!(
                 "Successfully inserted tuple. New num_tuples: {}, tuple_info.len(): {}",
@@ -1120,8 +1132,7 @@ impl TablePage {
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
-            let serialized = self.serialize();
-            self.data.copy_from_slice(&serialized);
+            self.sync_image();
 
             debug!(
                 "Successfully inserted tuple with RID {:?}. New num_tuples: {}, tuple_info.len(): {}",
@@ -1214,6 +1225,14 @@ impl PageTrait for TablePage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image brings its own header and slots (a page read back from disk).
+        if offset == 0
+            && new_data.len() == self.data.len()
+            && let Ok(page) = Self::deserialize(&self.data)
+        {
+            self.header = page.header;
+            self.tuple_info = page.tuple_info;
+        }
         self.is_dirty = true;
         Ok(())
     }
-- 
2.43.0


From 183bf26f7b9e9eff6772042e3299bac20c0bda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 06/60] fix: table page slots keep room for their metadata to
 grow

---
 src/storage/page/page_types/table_page.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 2f1e34c..b3de269 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -107,6 +107,10 @@ pub struct TablePage {
     pin_count: i32,
 }
 
+/// Longest postcard encoding of a `TupleMeta`: a varint u64 (10 bytes), two optional varint
+/// u64s (11 bytes each) and a bool.
+const TUPLE_META_MAX_ENCODED_LEN: usize = 10 + 11 + 1 + 11;
+
 #[derive(Debug, Serialize, Deserialize)]
 struct TablePageHeader {
     page_id: PageId,
@@ -890,15 +894,9 @@ impl TablePage {
 
     /// Returns the encoded size of all tuple-info entries (offset+size + encoded meta).
     fn encoded_tuple_info_bytes(&self) -> usize {
-        self.tuple_info
-            .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
-            .sum()
+        // 2 bytes offset + 2 bytes size + encoded meta. A meta may grow in place (commit
+        // timestamp, undo link), so every slot reserves the longest encoding.
+        self.tuple_info.len() * (4 + TUPLE_META_MAX_ENCODED_LEN)
     }
 
     fn metadata_footprint_bytes(&self) -> usize {
@@ -910,14 +908,14 @@ impl TablePage {
     }
 
     fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
+        postcard::to_allocvec(meta).ok()?;
         Some(
             1 // page type
                 + TablePageHeader::size()
                 + 4 // start magic
                 + self.encoded_tuple_info_bytes()
                 + 4 // offset+size for new tuple
-                + meta_len
+                + TUPLE_META_MAX_ENCODED_LEN
                 + 4, // end magic
         )
     }
-- 
2.43.0


From 906cf182c880ca1416779e44f190d76bfd24ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 07/60] fix: an update to a row larger than a page is refused
 instead of panicking

---
 src/storage/page/page_types/table_page.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index b3de269..d5f3405 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -309,6 +309,9 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
+        if tuple_data.len() > DB_PAGE_SIZE as usize {
+            return Err(PageError::TupleInvalid);
+        }
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
-- 
2.43.0


From 993b2bb33490461f6a739203de00a71511135563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 08/60] fix: a table page counts its deleted rows through every
 path

---
 src/storage/page/page_types/table_page.rs | 35 ++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index d5f3405..4559369 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -315,7 +315,7 @@ impl TablePage {
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
-        let (current_offset, current_size, _) = self.tuple_info[tuple_id];
+        let (current_offset, current_size, old_meta) = self.tuple_info[tuple_id];
 
         // Try to update in place if the new tuple size is smaller than or equal to current size
         if new_size <= current_size {
@@ -340,6 +340,7 @@ impl TablePage {
                     }
                 }
 
+                self.note_deleted(old_meta.is_deleted(), meta.is_deleted());
                 self.is_dirty = true;
                 self.sync_image();
                 Ok(())
@@ -380,6 +381,7 @@ impl TablePage {
             let end = start + new_size as usize;
             if end <= self.data.len() {
                 self.data[start..end].copy_from_slice(&tuple_data);
+                self.note_deleted(old_meta.is_deleted(), meta.is_deleted());
                 self.is_dirty = true;
                 self.sync_image();
                 Ok(())
@@ -417,7 +419,7 @@ impl TablePage {
             self.tuple_info.len()
         );
 
-        let old_meta = &self.tuple_info[tuple_id].2;
+        let old_meta = self.tuple_info[tuple_id].2;
         debug!(
             "Old meta - creator_txn: {}, commit_ts: {:?}, deleted: {}",
             old_meta.get_creator_txn_id(),
@@ -431,19 +433,7 @@ impl TablePage {
             meta.is_deleted()
         );
 
-        if !old_meta.is_deleted() && meta.is_deleted() {
-            self.header.num_deleted_tuples += 1;
-            debug!(
-                "Incrementing num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        } else if old_meta.is_deleted() && !meta.is_deleted() {
-            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
-            debug!(
-                "Decrimenting num_deleted_tuples to {}",
-                self.header.num_deleted_tuples
-            );
-        }
+        self.note_deleted(old_meta.is_deleted(), meta.is_deleted());
 
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
@@ -687,6 +677,15 @@ impl TablePage {
         buffer
     }
 
+    /// Keeps `num_deleted_tuples` in step with a slot whose deleted flag goes from `was` to `is`.
+    fn note_deleted(&mut self, was: bool, is: bool) {
+        if !was && is {
+            self.header.num_deleted_tuples += 1;
+        } else if was && !is {
+            self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1);
+        }
+    }
+
     /// Brings the byte image, which is what the buffer pool writes out, in line with the
     /// header and the slots.
     fn sync_image(&mut self) {
@@ -864,9 +863,10 @@ impl TablePage {
             .map_err(|e| format!("Failed to serialize tuple: {}", e))?;
 
         // Get current tuple info
-        let (offset, size, _) = self.tuple_info[tuple_id];
+        let (offset, size, old_meta) = self.tuple_info[tuple_id];
 
         // Update the tuple metadata (simple copy since TupleMeta is Copy)
+        self.note_deleted(old_meta.is_deleted(), meta.is_deleted());
         self.tuple_info[tuple_id].2 = meta;
 
         // Write the new tuple data
@@ -1046,6 +1046,7 @@ impl TablePage {
             self.data[start..end].copy_from_slice(&tuple_data);
             // Update header before returning
             self.header.num_tuples += 1;
+            self.note_deleted(false, meta.is_deleted());
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
@@ -1130,6 +1131,7 @@ impl TablePage {
             self.data[start..end].copy_from_slice(&tuple_data);
             // Update header before returning
             self.header.num_tuples += 1;
+            self.note_deleted(false, meta.is_deleted());
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
@@ -1247,6 +1249,7 @@ impl PageTrait for TablePage {
         self.header.prev_page_id = INVALID_PAGE_ID;
         self.header.next_page_id = INVALID_PAGE_ID;
         self.header.num_tuples = 0;
+        self.header.num_deleted_tuples = 0;
         self.tuple_info.clear();
         self.is_dirty = false;
         self.data[PAGE_TYPE_OFFSET] = Self::TYPE_ID as u8;
-- 
2.43.0


From 65e463bf8d290bcea2f66bc694af29b71addc2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 09/60] fix: a table row that shrank keeps its room so an
 update can be rolled back

---
 src/storage/page/page_types/table_page.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 4559369..67ecfc8 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -317,8 +317,20 @@ impl TablePage {
         // Get current tuple info
         let (current_offset, current_size, old_meta) = self.tuple_info[tuple_id];
 
-        // Try to update in place if the new tuple size is smaller than or equal to current size
-        if new_size <= current_size {
+        // A row that shrank keeps its room up to the next row (nothing else is placed there), so
+        // that an update can always be rolled back.
+        let current_end = current_offset.saturating_add(current_size);
+        let room_end = self
+            .tuple_info
+            .iter()
+            .enumerate()
+            .filter(|(i, (offset, _, _))| *i != tuple_id && *offset >= current_end)
+            .map(|(_, (offset, _, _))| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
+
+        // Try to update in place if the new tuple fits into that room
+        if new_size <= room_end.saturating_sub(current_offset) {
             // Update metadata in tuple_info
             self.tuple_info[tuple_id].2 = meta;
 
-- 
2.43.0


From b9762c11528c859dba069b8e0a8c7eb6072c8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 10/60] fix: reads never return another transaction's
 uncommitted version

---
 src/storage/table/table_heap.rs               | 81 +++++--------------
 src/storage/table/transactional_table_heap.rs |  8 +-
 2 files changed, 24 insertions(+), 65 deletions(-)

diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..db50e57 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -231,7 +231,9 @@ use parking_lot::RwLock;
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TXN_ID, PageId, TableOidT};
+use crate::common::config::{
+    INVALID_PAGE_ID, INVALID_TS, INVALID_TXN_ID, PageId, TableOidT, Timestamp,
+};
 use crate::common::exception::PageError;
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockManager;
@@ -601,57 +603,15 @@ impl TableHeap {
                 }
             },
 
-            IsolationLevel::ReadCommitted => {
-                // For READ_COMMITTED, only return committed versions
-                if meta.is_committed() {
-                    if meta.is_deleted() {
-                        Err("Tuple is deleted".to_string())
-                    } else {
-                        Ok((Arc::new(meta), Arc::new(tuple)))
-                    }
-                }
-                // If the latest version is uncommitted (update/delete) by another txn,
-                // walk the version chain to find the latest committed version.
-                else {
-                    let txn_manager = txn_ctx.get_transaction_manager();
-                    let current_link = txn_manager.get_undo_link(rid);
-
-                    if let Some(ref undo_link) = current_link {
-                        let undo_log = match txn_manager.get_undo_log(undo_link.clone()) {
-                            Ok(log) => log,
-                            Err(e) => return Err(format!("Undo log missing: {}", e)),
-                        };
-
-                        let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                        prev_meta.set_commit_timestamp(undo_log.ts);
-                        let prev_deleted = if undo_log.original_rid.is_some() {
-                            // Delete undo logs store the pre-delete version; treat it as live.
-                            false
-                        } else {
-                            undo_log.is_deleted
-                        };
-                        prev_meta.set_deleted(prev_deleted);
-                        if undo_log.prev_version.is_valid() {
-                            prev_meta
-                                .set_undo_log_idx(undo_log.prev_version.prev_log_idx)
-                                .map_err(|e| e.to_string())?;
-                        } else {
-                            prev_meta.clear_undo_log_idx();
-                        }
-
-                        if prev_meta.is_deleted() {
-                            return Err("Tuple is deleted".to_string());
-                        }
-                        // First committed version in chain is what READ_COMMITTED should see.
-                        Ok((Arc::new(prev_meta), undo_log.tuple.clone()))
-                    } else {
-                        Err("No visible version found".to_string())
-                    }
-                }
-            },
-
-            IsolationLevel::RepeatableRead | IsolationLevel::Serializable => {
-                let read_ts = txn.read_ts();
+            IsolationLevel::ReadCommitted
+            | IsolationLevel::RepeatableRead
+            | IsolationLevel::Serializable
+            | IsolationLevel::Snapshot => {
+                // READ_COMMITTED sees the latest committed version whatever its timestamp.
+                let read_ts = match txn.get_isolation_level() {
+                    IsolationLevel::ReadCommitted => Timestamp::MAX,
+                    _ => txn.read_ts(),
+                };
                 match meta.visibility_status(txn_id, read_ts) {
                     TupleVisibility::Visible => return Ok((Arc::new(meta), Arc::new(tuple))),
                     TupleVisibility::Deleted => return Err("Tuple is deleted".to_string()),
@@ -669,7 +629,12 @@ impl TableHeap {
                     };
 
                     let mut prev_meta = TupleMeta::new(undo_log.prev_version.prev_txn);
-                    prev_meta.set_commit_timestamp(undo_log.ts);
+                    if undo_log.ts == INVALID_TS {
+                        // The previous version was not committed.
+                        prev_meta.set_commit_timestamp_opt(None);
+                    } else {
+                        prev_meta.set_commit_timestamp(undo_log.ts);
+                    }
                     let prev_deleted = if undo_log.original_rid.is_some() {
                         // Delete undo logs store the pre-delete version; treat it as live.
                         false
@@ -702,16 +667,6 @@ impl TableHeap {
 
                 Err("No visible version found".to_string())
             },
-
-            IsolationLevel::Snapshot => {
-                // For SNAPSHOT, assume similar behavior to SERIALIZABLE for now
-                // This may involve checking for a consistent snapshot version
-                if meta.is_deleted() {
-                    Err("Tuple is deleted".to_string())
-                } else {
-                    Ok((Arc::new(meta), Arc::new(tuple)))
-                }
-            },
         }
     }
 
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..ada7d2f 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -591,7 +591,11 @@ impl TransactionalTableHeap {
         tuple: Arc<Tuple>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
+        // READ_COMMITTED sees the latest committed version whatever its timestamp.
+        let read_ts = match txn.get_isolation_level() {
+            IsolationLevel::ReadCommitted => Timestamp::MAX,
+            _ => txn.read_ts(),
+        };
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
-- 
2.43.0


From 34543be99da25ae9f5b2b7157d9455e6eae2f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 11/60] fix: abort restores the version the transaction found,
 however often it wrote the row

---
 src/concurrency/transaction_manager.rs | 91 ++++++++++++++++++--------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..ceb621a 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -579,6 +579,32 @@ impl TransactionManager {
         true
     }
 
+    /// Takes back a row the transaction inserted: the slot stays, marked as deleted.
+    fn mark_insert_aborted(
+        &self,
+        table_heap: &TransactionalTableHeap,
+        txn: &Transaction,
+        rid: RID,
+    ) {
+        let mut meta = TupleMeta::new(txn.get_transaction_id());
+        meta.set_deleted(true);
+        // Uncommitted/aborted versions should not have a commit timestamp.
+        meta.set_commit_timestamp_opt(None);
+
+        if let Some(page_guard) = table_heap
+            .get_table_heap()
+            .get_bpm()
+            .fetch_page::<TablePage>(rid.get_page_id())
+        {
+            let mut page = page_guard.write();
+            if let Ok((_, _)) = page.get_tuple(&rid, true)
+                && let Err(e) = page.update_tuple_meta(meta, &rid)
+            {
+                log::error!("Failed to mark tuple as deleted: {}", e);
+            }
+        }
+    }
+
     /// Aborts the specified transaction.
     ///
     /// # Parameters
@@ -652,7 +678,7 @@ impl TransactionManager {
                         undo_link.prev_log_idx
                     );
                     // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
+                    let mut undo_log = match self.get_undo_log(undo_link.clone()) {
                         Ok(log) => log,
                         Err(e) => {
                             log::error!(
@@ -666,6 +692,26 @@ impl TransactionManager {
                         },
                     };
 
+                    // The transaction may have written the row more than once: go back to the
+                    // version it found.
+                    while undo_log.prev_version.is_valid()
+                        && undo_log.prev_version.prev_txn == txn.get_transaction_id()
+                    {
+                        match self.get_undo_log(undo_log.prev_version.clone()) {
+                            Ok(log) => undo_log = log,
+                            Err(_) => break,
+                        }
+                    }
+
+                    // The version it found is its own insert: there is nothing to go back to.
+                    if undo_log.ts == INVALID_TS
+                        && undo_log.prev_version.prev_txn == txn.get_transaction_id()
+                    {
+                        self.mark_insert_aborted(&table_heap, &txn, rid);
+                        self.update_undo_link(rid, None, None);
+                        continue;
+                    }
+
                     // Check if this was a deleted tuple that needs to be restored
                     // If the original_rid is present, it means this was a delete operation
                     if let Some(original_rid) = undo_log.original_rid {
@@ -675,16 +721,20 @@ impl TransactionManager {
                         );
 
                         // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
+                        let mut meta = TupleMeta::new(undo_log.prev_version.prev_txn);
                         if undo_log.ts == INVALID_TS {
                             meta.set_commit_timestamp_opt(None);
                         } else {
                             meta.set_commit_timestamp(undo_log.ts);
                         }
                         meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
+                        if undo_log.prev_version.is_valid() {
+                            meta.set_undo_log_idx(undo_log.prev_version.prev_log_idx)
+                                .map_err(|e| {
+                                    format!("Invalid undo log index during restore: {}", e)
+                                })
+                                .unwrap();
+                        }
 
                         // For deleted tuples, we need a different approach
                         // First get the page directly to bypass the deletion check
@@ -730,16 +780,20 @@ impl TransactionManager {
                     } else {
                         // Regular update rollback
                         // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
+                        let mut meta = TupleMeta::new(undo_log.prev_version.prev_txn);
                         if undo_log.ts == INVALID_TS {
                             meta.set_commit_timestamp_opt(None);
                         } else {
                             meta.set_commit_timestamp(undo_log.ts);
                         }
                         meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
+                        if undo_log.prev_version.is_valid() {
+                            meta.set_undo_log_idx(undo_log.prev_version.prev_log_idx)
+                                .map_err(|e| {
+                                    format!("Invalid undo log index during rollback: {}", e)
+                                })
+                                .unwrap();
+                        }
 
                         // Use a reference to the Arc<Tuple> without cloning
                         log::debug!(
@@ -770,24 +824,7 @@ impl TransactionManager {
                     );
                     // If no undo link exists, this was a newly inserted tuple
                     // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
+                    self.mark_insert_aborted(&table_heap, &txn, rid);
                 }
             }
         }
-- 
2.43.0


From cb66a9ea41c4d2dbe7dd1f944390eb8cdbb845a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 12/60] fix: garbage collection keeps versions a running
 transaction still needs

---
 src/concurrency/transaction_manager.rs | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index ceb621a..e206826 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -863,10 +863,10 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // Retain only links whose versions a running transaction may still read or restore
             page_info.prev_link.write().retain(|_, link| {
                 if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
+                    Self::is_still_needed(txn, watermark)
                 } else {
                     false
                 }
@@ -1141,6 +1141,19 @@ impl TransactionManager {
         self.get_transactions().len()
     }
 
+    /// Whether a running transaction may still need this transaction's undo logs.
+    fn is_still_needed(txn: &Transaction, watermark: Timestamp) -> bool {
+        match txn.get_state() {
+            TransactionState::Running | TransactionState::Tainted => true,
+            TransactionState::Committed => {
+                let commit_ts = txn.commit_ts();
+                commit_ts == 0 || commit_ts >= watermark
+            },
+            TransactionState::Aborted => txn.read_ts() >= watermark,
+            _ => true,
+        }
+    }
+
     /// Removes completed transactions whose versions are no longer visible.
     ///
     /// Uses the watermark to determine which transactions can be safely
@@ -1152,15 +1165,7 @@ impl TransactionManager {
         let watermark = self.get_watermark();
         let mut txn_map = self.state.txn_map.write();
 
-        txn_map.retain(|_, txn| match txn.get_state() {
-            TransactionState::Running | TransactionState::Tainted => true,
-            TransactionState::Committed => {
-                let commit_ts = txn.commit_ts();
-                commit_ts == 0 || commit_ts >= watermark
-            },
-            TransactionState::Aborted => txn.read_ts() >= watermark,
-            _ => true,
-        });
+        txn_map.retain(|_, txn| Self::is_still_needed(txn, watermark));
     }
 
     /// Gets the undo link for a specific RID that belongs to a specific transaction.
-- 
2.43.0


From d6ed0b0327446bc4824ca243c1fff77b1a4c834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 13/60] fix: a lock upgrade respects other holders and never
 drops the lock already held

---
 src/concurrency/lock_manager.rs | 100 ++++++++++++--------------------
 1 file changed, 36 insertions(+), 64 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..dc38cd0 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -389,45 +389,15 @@ impl LockRequestQueue {
             return false;
         }
 
-        // Check existing locks by this transaction
-        let has_lock = false;
+        // A transaction never conflicts with itself, but a lock it already holds (an upgrade)
+        // does not exempt its request from the locks of the others.
         for existing_req in &self.request_queue {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
-            }
-        }
-
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
+            if existing.is_granted()
+                && existing.get_txn_id() != txn_id
+                && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
+            {
+                return false;
             }
         }
         true
@@ -439,43 +409,28 @@ impl LockRequestQueue {
         let lock_mode = request.lock().get_lock_mode();
 
         // Check for existing locks by this transaction
-        let mut existing_lock = None;
-        for (i, existing_req) in self.request_queue.iter().enumerate() {
+        let mut upgrade = false;
+        let mut covered = false;
+        for existing_req in &self.request_queue {
             let existing = existing_req.lock();
             if existing.is_granted() && existing.get_txn_id() == txn_id {
                 if existing.get_lock_mode() == lock_mode {
                     return true; // Already have this lock
                 }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
-            }
-        }
-
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
+                upgrade = true;
+                if LockCompatibilityChecker::covers(existing.get_lock_mode(), lock_mode) {
+                    covered = true;
+                }
             }
         }
 
-        // Check compatibility with existing locks
-        if self.compatible_with_existing_locks(&request.lock()) {
+        // Check compatibility with existing locks. The locks already held are kept beside the
+        // new one; a mode that one of them includes takes nothing away from anybody else.
+        let compatible = covered || self.compatible_with_existing_locks(&request.lock());
+        if compatible {
             // Grant the new lock
-            self.request_queue.push_back(request.clone());
             request.lock().granted = true;
+            self.request_queue.push_back(request);
             if self.upgrading == txn_id {
                 self.upgrading = INVALID_TXN_ID;
             }
@@ -483,6 +438,11 @@ impl LockRequestQueue {
             return true;
         }
 
+        // An upgrade that has to wait goes before other requests
+        if upgrade && self.upgrading == INVALID_TXN_ID {
+            self.upgrading = txn_id;
+        }
+
         // Add request to queue but don't grant it yet
         self.request_queue.push_back(request);
         false
@@ -907,6 +867,18 @@ impl LockCompatibilityChecker {
             //(a, b) => Self::are_compatible(b, a),
         }
     }
+
+    /// Checks whether holding `held` already includes what `wanted` would allow.
+    fn covers(held: LockMode, wanted: LockMode) -> bool {
+        match (held, wanted) {
+            (LockMode::Exclusive, _) => true,
+            (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => false,
+            (LockMode::SharedIntentionExclusive, _) => true,
+            (LockMode::Shared, LockMode::IntentionShared) => true,
+            (LockMode::IntentionExclusive, LockMode::IntentionShared) => true,
+            (held, wanted) => held == wanted,
+        }
+    }
 }
 
 impl Default for LockValidator {
-- 
2.43.0


From b95b6a51ed21f02e94b994f342d3781dba643e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 14/60] fix: releasing a lock grants its waiters without
 deadlocking and leaves nothing of the transaction behind

---
 src/concurrency/lock_manager.rs | 127 ++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 56 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index dc38cd0..2ac0a11 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -163,8 +163,7 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::{fmt, thread};
 
-use parking_lot::lock_api::MutexGuard;
-use parking_lot::{Condvar, Mutex, RawMutex};
+use parking_lot::{Condvar, Mutex};
 
 use crate::common::config::{INVALID_TXN_ID, TableOidT, TxnId};
 use crate::common::exception::LockError;
@@ -193,7 +192,7 @@ pub enum LockMode {
 ///
 /// For table lock requests, `rid` is `None`. For row lock requests,
 /// `rid` contains the specific row identifier.
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct LockRequest {
     /// Transaction ID of the requesting transaction.
     txn_id: TxnId,
@@ -447,6 +446,35 @@ impl LockRequestQueue {
         self.request_queue.push_back(request);
         false
     }
+
+    /// Removes every request of a transaction, granted or waiting.
+    fn remove_txn(&mut self, txn_id: TxnId) {
+        self.request_queue
+            .retain(|req| req.lock().get_txn_id() != txn_id);
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
+
+    /// Grants every waiting request that no longer conflicts and returns the requests granted.
+    fn grant_waiting(&mut self) -> Vec<LockRequest> {
+        let mut granted = Vec::new();
+        let mut i = 0;
+        while i < self.request_queue.len() {
+            // A copy, so that the request is not locked while the queue is examined.
+            let request = self.request_queue[i].lock().clone();
+            if !request.is_granted() && self.compatible_with_existing_locks(&request) {
+                self.request_queue[i].lock().granted = true;
+                if self.upgrading == request.get_txn_id() {
+                    self.upgrading = INVALID_TXN_ID;
+                }
+                granted.push(request);
+            }
+            i += 1;
+        }
+        self.cv.notify_all();
+        granted
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -677,12 +705,12 @@ impl LockStateManager {
             let mut queue_guard = queue.lock();
 
             // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
+            if queue_guard.request_queue.iter().any(|req| {
                 let req = req.lock();
                 req.get_txn_id() == txn_id && req.is_granted()
             }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
+                // Remove the lock, together with every mode it was upgraded through
+                queue_guard.remove_txn(txn_id);
 
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
@@ -691,17 +719,9 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
+                for request in queue_guard.grant_waiting() {
+                    Self::record_lock(&mut txn_locks, &request);
                 }
-                queue_guard.cv.notify_all();
 
                 return Ok(());
             }
@@ -718,11 +738,11 @@ impl LockStateManager {
             let mut queue_guard = queue.lock();
 
             // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
+            if queue_guard.request_queue.iter().any(|req| {
                 let req = req.lock();
                 req.get_txn_id() == txn_id && req.is_granted()
             }) {
-                queue_guard.request_queue.remove(pos);
+                queue_guard.remove_txn(txn_id);
 
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
@@ -731,7 +751,9 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                self.grant_waiting_locks(&mut queue_guard);
+                for request in queue_guard.grant_waiting() {
+                    Self::record_lock(&mut txn_locks, &request);
+                }
                 return Ok(());
             }
         }
@@ -741,26 +763,19 @@ impl LockStateManager {
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
-
-        // Release row locks first to avoid table-lock ordering issues.
+        // A request may still be waiting on a resource the transaction holds no lock on,
+        // so every queue is visited. Release row locks first to avoid table-lock ordering issues.
         {
             let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
+            let rids: Vec<RID> = row_locks.keys().copied().collect();
+            for rid in rids {
+                if let Some(queue) = row_locks.get(&rid) {
                     let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+                    queue_guard.remove_txn(txn_id);
+                    let mut txn_locks = self.txn_lock_sets.lock();
+                    for request in queue_guard.grant_waiting() {
+                        Self::record_lock(&mut txn_locks, &request);
+                    }
                 }
             }
         }
@@ -768,13 +783,15 @@ impl LockStateManager {
         // Release table locks.
         {
             let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
+            let oids: Vec<TableOidT> = table_locks_map.keys().copied().collect();
+            for oid in oids {
+                if let Some(queue) = table_locks_map.get(&oid) {
                     let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
+                    queue_guard.remove_txn(txn_id);
+                    let mut txn_locks = self.txn_lock_sets.lock();
+                    for request in queue_guard.grant_waiting() {
+                        Self::record_lock(&mut txn_locks, &request);
+                    }
                 }
             }
         }
@@ -786,20 +803,18 @@ impl LockStateManager {
         Ok(())
     }
 
-    /// Attempts to grant locks to waiting transactions
-    fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
-            }
-        }
-        queue.cv.notify_all();
+    /// Enters a granted request into its transaction's lock set.
+    fn record_lock(txn_locks: &mut HashMap<TxnId, TxnLockState>, request: &LockRequest) {
+        let lock_state = txn_locks
+            .entry(request.get_txn_id())
+            .or_insert_with(|| TxnLockState {
+                table_locks: HashSet::new(),
+                row_locks: HashSet::new(),
+            });
+        match request.get_rid() {
+            Some(rid) => lock_state.row_locks.insert((request.get_oid(), rid)),
+            None => lock_state.table_locks.insert(request.get_oid()),
+        };
     }
 
     /// Checks if a transaction has a lock on a table
-- 
2.43.0


From f6bbcdb1ebd406f911d205338e8cb84e82e0e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:24 +0000
Subject: [PATCH 15/60] fix: row locks are recorded under the table they belong
 to, so they can be released

---
 src/concurrency/lock_manager.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 2ac0a11..cab4fb6 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -670,17 +670,20 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
 
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
+            txn_id, lock_mode, oid, rid,
         )));
         let granted = queue.lock().grant_lock(request.clone());
 
@@ -691,7 +694,7 @@ impl LockStateManager {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
         }
 
         granted
@@ -747,7 +750,7 @@ impl LockStateManager {
                 // Update transaction's lock set
                 let mut txn_locks = self.txn_lock_sets.lock();
                 if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
+                    lock_state.row_locks.retain(|(_, held)| *held != rid);
                 }
 
                 // Try to grant waiting locks
@@ -1226,7 +1229,7 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
             // 5. If not granted, add edge to waits-for graph
-- 
2.43.0


From ed67cce994a32bffa061afa1e7bdfa3811cc91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 16/60] fix: a waiting transaction waits only for those that
 block it, never for itself

---
 src/concurrency/lock_manager.rs | 49 +++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index cab4fb6..7469864 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -402,6 +402,28 @@ impl LockRequestQueue {
         true
     }
 
+    /// Returns the transactions a request has to wait for before it can be granted.
+    fn blockers(&self, request: &LockRequest) -> Vec<TxnId> {
+        let txn_id = request.get_txn_id();
+        let mut blockers = Vec::new();
+        if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
+            blockers.push(self.upgrading);
+        }
+        for existing_req in &self.request_queue {
+            let existing = existing_req.lock();
+            if existing.is_granted()
+                && existing.get_txn_id() != txn_id
+                && !LockCompatibilityChecker::are_compatible(
+                    existing.get_lock_mode(),
+                    request.get_lock_mode(),
+                )
+            {
+                blockers.push(existing.get_txn_id());
+            }
+        }
+        blockers
+    }
+
     /// Attempts to grant a lock request.
     pub fn grant_lock(&mut self, request: Arc<Mutex<LockRequest>>) -> bool {
         let txn_id = request.lock().get_txn_id();
@@ -1065,13 +1087,12 @@ impl LockManager {
                 });
             lock_state.table_locks.insert(oid);
         } else {
-            // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
+            // 6. If not granted, add edges to the transactions it waits for
+            // A copy, so that the request is not locked while the queue is examined.
+            let waiting = request.lock().clone();
+            for blocker in queue_guard.blockers(&waiting) {
+                self.deadlock_detector
+                    .add_edge(txn.get_transaction_id(), blocker);
             }
 
             // 7. Check for deadlock
@@ -1232,16 +1253,14 @@ impl LockManager {
                 .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
         if !granted {
-            // 5. If not granted, add edge to waits-for graph
+            // 5. If not granted, add edges to the transactions it waits for
+            let waiting =
+                LockRequest::new_row_request(txn.get_transaction_id(), lock_mode, oid, rid);
             let row_locks = self.lock_state_manager.row_locks.lock();
             if let Some(queue) = row_locks.get(&rid) {
-                let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
+                for blocker in queue.lock().blockers(&waiting) {
+                    self.deadlock_detector
+                        .add_edge(txn.get_transaction_id(), blocker);
                 }
             }
 
-- 
2.43.0


From 909a135183524be0e4410cf91d14901fdc7ee4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 17/60] fix: two-phase rules follow the locks released and a
 finished transaction takes no more locks

---
 src/concurrency/lock_manager.rs | 192 +++++++++++++++++---------------
 1 file changed, 100 insertions(+), 92 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 7469864..88666b7 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -232,6 +232,15 @@ struct TxnLockState {
     row_locks: HashSet<(TableOidT, RID)>,
 }
 
+/// What releasing a lock brought about.
+#[derive(Clone, Debug)]
+pub struct ReleasedLocks {
+    /// Modes in which the transaction held the lock.
+    modes: Vec<LockMode>,
+    /// Waiting requests of other transactions that were granted in turn.
+    granted: Vec<LockRequest>,
+}
+
 /// Detects deadlocks using a waits-for graph with background cycle detection.
 ///
 /// Maintains a directed graph where edges represent "transaction A waits for
@@ -469,6 +478,18 @@ impl LockRequestQueue {
         false
     }
 
+    /// Returns the modes in which a transaction holds the lock.
+    fn held_modes(&self, txn_id: TxnId) -> Vec<LockMode> {
+        let mut modes = Vec::new();
+        for existing_req in &self.request_queue {
+            let existing = existing_req.lock();
+            if existing.is_granted() && existing.get_txn_id() == txn_id {
+                modes.push(existing.get_lock_mode());
+            }
+        }
+        modes
+    }
+
     /// Removes every request of a transaction, granted or waiting.
     fn remove_txn(&mut self, txn_id: TxnId) {
         self.request_queue
@@ -723,17 +744,19 @@ impl LockStateManager {
     }
 
     /// Releases a table lock
-    pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<(), LockError> {
+    pub fn release_table_lock(
+        &self,
+        txn_id: TxnId,
+        oid: TableOidT,
+    ) -> Result<ReleasedLocks, LockError> {
         let table_locks = self.table_lock_map.lock();
 
         if let Some(queue) = table_locks.get(&oid) {
             let mut queue_guard = queue.lock();
 
             // Find and remove the lock request
-            if queue_guard.request_queue.iter().any(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
+            let modes = queue_guard.held_modes(txn_id);
+            if !modes.is_empty() {
                 // Remove the lock, together with every mode it was upgraded through
                 queue_guard.remove_txn(txn_id);
 
@@ -744,11 +767,12 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                for request in queue_guard.grant_waiting() {
-                    Self::record_lock(&mut txn_locks, &request);
+                let granted = queue_guard.grant_waiting();
+                for request in &granted {
+                    Self::record_lock(&mut txn_locks, request);
                 }
 
-                return Ok(());
+                return Ok(ReleasedLocks { modes, granted });
             }
         }
 
@@ -756,17 +780,15 @@ impl LockStateManager {
     }
 
     /// Releases a row lock
-    pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<(), LockError> {
+    pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<ReleasedLocks, LockError> {
         let row_locks = self.row_locks.lock();
 
         if let Some(queue) = row_locks.get(&rid) {
             let mut queue_guard = queue.lock();
 
             // Find and remove the lock request
-            if queue_guard.request_queue.iter().any(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
+            let modes = queue_guard.held_modes(txn_id);
+            if !modes.is_empty() {
                 queue_guard.remove_txn(txn_id);
 
                 // Update transaction's lock set
@@ -776,10 +798,11 @@ impl LockStateManager {
                 }
 
                 // Try to grant waiting locks
-                for request in queue_guard.grant_waiting() {
-                    Self::record_lock(&mut txn_locks, &request);
+                let granted = queue_guard.grant_waiting();
+                for request in &granted {
+                    Self::record_lock(&mut txn_locks, request);
                 }
-                return Ok(());
+                return Ok(ReleasedLocks { modes, granted });
             }
         }
 
@@ -787,7 +810,11 @@ impl LockStateManager {
     }
 
     /// Force releases all locks held by the given transaction without mutating the transaction state.
-    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
+    ///
+    /// Returns the waiting requests of other transactions that were granted in turn.
+    pub fn force_release_txn(&self, txn_id: TxnId) -> Result<Vec<LockRequest>, LockError> {
+        let mut all_granted = Vec::new();
+
         // A request may still be waiting on a resource the transaction holds no lock on,
         // so every queue is visited. Release row locks first to avoid table-lock ordering issues.
         {
@@ -800,6 +827,7 @@ impl LockStateManager {
                     let mut txn_locks = self.txn_lock_sets.lock();
                     for request in queue_guard.grant_waiting() {
                         Self::record_lock(&mut txn_locks, &request);
+                        all_granted.push(request);
                     }
                 }
             }
@@ -816,6 +844,7 @@ impl LockStateManager {
                     let mut txn_locks = self.txn_lock_sets.lock();
                     for request in queue_guard.grant_waiting() {
                         Self::record_lock(&mut txn_locks, &request);
+                        all_granted.push(request);
                     }
                 }
             }
@@ -825,7 +854,7 @@ impl LockStateManager {
         let mut txn_locks = self.txn_lock_sets.lock();
         txn_locks.remove(&txn_id);
 
-        Ok(())
+        Ok(all_granted)
     }
 
     /// Enters a granted request into its transaction's lock set.
@@ -943,12 +972,23 @@ impl LockValidator {
         txn: &Transaction,
         lock_mode: LockMode,
     ) -> Result<(), LockError> {
+        // Whatever the isolation level, a finished transaction takes no more locks
+        match txn.get_state() {
+            TransactionState::Aborted | TransactionState::Tainted => {
+                return Err(LockError::TransactionAborted);
+            },
+            TransactionState::Committed => return Err(LockError::TransactionCommitted),
+            TransactionState::Running | TransactionState::Growing | TransactionState::Shrinking => {
+            },
+        }
+
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
             IsolationLevel::RepeatableRead => self.validate_repeatable_read(txn, lock_mode),
-            IsolationLevel::Serializable => Ok(()),
-            IsolationLevel::Snapshot => self.validate_snapshot(txn, lock_mode),
+            // Two-phase like repeatable read: no lock is taken after one was given up
+            IsolationLevel::Serializable => self.validate_repeatable_read(txn, lock_mode),
+            IsolationLevel::Snapshot => Ok(()),
         }
     }
 
@@ -1008,14 +1048,6 @@ impl LockValidator {
             TransactionState::Tainted => Err(LockError::TransactionAborted),
         }
     }
-
-    /// Validates lock requests for SNAPSHOT isolation level
-    fn validate_snapshot(&self, txn: &Transaction, lock_mode: LockMode) -> Result<(), LockError> {
-        if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-            txn.set_state(TransactionState::Shrinking);
-        }
-        Ok(())
-    }
 }
 
 impl Default for LockManager {
@@ -1138,40 +1170,12 @@ impl LockManager {
         }
 
         // 3. Release the lock
-        self.lock_state_manager
+        let released = self
+            .lock_state_manager
             .release_table_lock(txn.get_transaction_id(), oid)?;
 
-        // 4. Update transaction state based on isolation level and lock mode
-        match txn.get_isolation_level() {
-            IsolationLevel::RepeatableRead => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::ReadCommitted => {
-                if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::ReadUncommitted => {
-                if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::Serializable => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::Snapshot => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-        }
-
-        // 5. Remove edges from waits-for graph
-        self.deadlock_detector.remove_edge(txn.get_transaction_id());
+        // 4. Update transaction state and waits-for graph
+        self.finish_unlock(&txn, lock_mode, &released);
 
         Ok(true)
     }
@@ -1299,42 +1303,43 @@ impl LockManager {
         }
 
         // 2. Release the lock
-        self.lock_state_manager
+        let released = self
+            .lock_state_manager
             .release_row_lock(txn.get_transaction_id(), rid)?;
 
-        // 3. Update transaction state based on isolation level and lock mode
-        match txn.get_isolation_level() {
-            IsolationLevel::RepeatableRead => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::ReadCommitted => {
-                if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::ReadUncommitted => {
-                if matches!(lock_mode, LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::Serializable => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
-            IsolationLevel::Snapshot => {
-                if matches!(lock_mode, LockMode::Shared | LockMode::Exclusive) {
-                    txn.set_state(TransactionState::Shrinking);
-                }
-            },
+        // 3. Update transaction state and waits-for graph
+        self.finish_unlock(&txn, lock_mode, &released);
+
+        Ok(true)
+    }
+
+    /// Updates the transaction state and the waits-for graph after a lock was given up.
+    ///
+    /// The state depends on the isolation level and on the modes actually released; a
+    /// transaction that has already finished keeps its state.
+    fn finish_unlock(&self, txn: &Transaction, lock_mode: LockMode, released: &ReleasedLocks) {
+        let shared = lock_mode == LockMode::Shared || released.modes.contains(&LockMode::Shared);
+        let exclusive =
+            lock_mode == LockMode::Exclusive || released.modes.contains(&LockMode::Exclusive);
+        let shrinks = match txn.get_isolation_level() {
+            IsolationLevel::RepeatableRead
+            | IsolationLevel::Serializable
+            | IsolationLevel::Snapshot => shared || exclusive,
+            IsolationLevel::ReadCommitted | IsolationLevel::ReadUncommitted => exclusive,
+        };
+        let active = matches!(
+            txn.get_state(),
+            TransactionState::Running | TransactionState::Growing | TransactionState::Shrinking
+        );
+        if shrinks && active {
+            txn.set_state(TransactionState::Shrinking);
         }
 
-        // 4. Remove edges from waits-for graph
         self.deadlock_detector.remove_edge(txn.get_transaction_id());
-
-        Ok(true)
+        for request in &released.granted {
+            // It waits no longer
+            self.deadlock_detector.remove_edge(request.get_txn_id());
+        }
     }
 
     /// Releases all locks from all transactions (for testing/reset).
@@ -1368,7 +1373,10 @@ impl LockManager {
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
         // Remove waits-for edges for this transaction as it no longer blocks others.
         self.deadlock_detector.remove_edge(txn_id);
-        self.lock_state_manager.force_release_txn(txn_id)
+        for request in self.lock_state_manager.force_release_txn(txn_id)? {
+            self.deadlock_detector.remove_edge(request.get_txn_id());
+        }
+        Ok(())
     }
 
     /// Checks if this transaction was selected as a deadlock victim.
-- 
2.43.0


From 731259aa348f40626858227c0a0c7106ac462466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 18/60] fix: a granted upgrade lets the requests it held back
 be granted too

---
 src/concurrency/lock_manager.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 88666b7..6487d2b 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -508,10 +508,14 @@ impl LockRequestQueue {
             let request = self.request_queue[i].lock().clone();
             if !request.is_granted() && self.compatible_with_existing_locks(&request) {
                 self.request_queue[i].lock().granted = true;
-                if self.upgrading == request.get_txn_id() {
+                let upgraded = self.upgrading == request.get_txn_id();
+                granted.push(request);
+                if upgraded {
+                    // It no longer holds back the requests before it
                     self.upgrading = INVALID_TXN_ID;
+                    i = 0;
+                    continue;
                 }
-                granted.push(request);
             }
             i += 1;
         }
-- 
2.43.0


From 70589815b6172b5032f7cfd613baea4aec79673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 19/60] fix: a deadlock victim's notice is kept until the
 victim sees it

---
 src/concurrency/lock_manager.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 6487d2b..a165300 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -574,10 +574,12 @@ impl DeadlockDetector {
 
                 // Check for cycles
                 let mut abort_txn = INVALID_TXN_ID;
-                if Self::find_cycle_in_graph(&graph, &mut abort_txn) {
-                    // Update the latest transaction to abort
+                let found = Self::find_cycle_in_graph(&graph, &mut abort_txn);
+
+                // Update the latest transaction to abort; none when the cycle is gone
+                {
                     let mut latest = latest_abort_txn.lock();
-                    *latest = Some(abort_txn);
+                    *latest = if found { Some(abort_txn) } else { None };
                 }
 
                 thread::sleep(std::time::Duration::from_millis(50));
@@ -1387,9 +1389,10 @@ impl LockManager {
     ///
     /// If so, sets the transaction state to Aborted and returns `Ok(true)`.
     pub fn check_deadlock(&self, txn: Arc<Transaction>) -> Result<bool, LockError> {
-        if let Some(abort_txn) = self.deadlock_detector.get_and_clear_abort_txn()
-            && abort_txn == txn.get_transaction_id()
-        {
+        // Only the victim itself takes the notice, others leave it for the victim
+        let mut latest = self.deadlock_detector.latest_abort_txn.lock();
+        if *latest == Some(txn.get_transaction_id()) {
+            *latest = None;
             txn.set_state(TransactionState::Aborted);
             return Ok(true);
         }
-- 
2.43.0


From 0756b7e8d61f682974806db31eaa7bf040b97e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 20/60] fix: a log record is read at its own length, not at a
 fixed 1024 bytes

---
 src/recovery/log_manager.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..13f738a 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -191,6 +191,9 @@ use crate::common::config::{INVALID_LSN, Lsn};
 use crate::recovery::log_record::LogRecord;
 use crate::storage::disk::async_disk::AsyncDiskManager;
 
+/// Largest length prefix taken for that of a record (the limit `LogIterator` uses).
+const MAX_LOG_RECORD_SIZE: i32 = 1_000_000;
+
 /// Coordinates Write-Ahead Logging (WAL) for durability and crash recovery.
 ///
 /// The `LogManager` maintains a background flush thread that periodically writes
@@ -582,7 +585,24 @@ impl LogManager {
     ) -> Option<LogRecord> {
         debug!("Reading log record from offset {}", offset);
 
-        match disk_manager.read_log(offset).await {
+        // The length prefix says how many bytes belong to the record; reading any other
+        // amount would miss records longer than it and those closer to the end of the log.
+        let size = match disk_manager.read_log_sized(offset, 4).await {
+            Ok(header) if header.len() == 4 => {
+                i32::from_le_bytes([header[0], header[1], header[2], header[3]])
+            },
+            Ok(_) => return None,
+            Err(e) => {
+                warn!("Failed to read log from disk at offset {}: {}", offset, e);
+                return None;
+            },
+        };
+        if size < 4 || size > MAX_LOG_RECORD_SIZE {
+            warn!("No log record at offset {}: size={}", offset, size);
+            return None;
+        }
+
+        match disk_manager.read_log_sized(offset, size as usize).await {
             Ok(bytes) => match LogRecord::from_bytes(&bytes) {
                 Ok(record) => {
                     debug!(
-- 
2.43.0


From c8408e36c3d157677717f84292d7c9a33f7221b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 21/60] fix: after a failed log flush no later record is
 written or called persistent

---
 src/recovery/log_manager.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index 13f738a..904f126 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -326,9 +326,13 @@ impl LogManager {
                     }
                 }
 
-                if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                if !records_to_flush.is_empty()
+                    && !Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
+                        .await
+                {
+                    // Records are missing from the log now. Writing the ones still queued would
+                    // advertise an LSN beyond the lost records as persistent.
+                    return;
                 }
             }
 
@@ -364,6 +368,10 @@ impl LogManager {
     /// - `max_lsn`: The highest LSN in the batch (used to update `persistent_lsn`).
     /// - `flush_reason`: A descriptive string for logging (e.g., "periodic", "shutdown").
     ///
+    /// # Returns
+    ///
+    /// `true` if every record is on disk.
+    ///
     /// # Error Handling
     ///
     /// If a disk write fails, the `stop_flag` is set to prevent false durability
@@ -373,9 +381,9 @@ impl LogManager {
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -400,6 +408,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -409,6 +418,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
-- 
2.43.0


From 06ba4a43c9d4a37ffbdc874c4738b48ccc23fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 22/60] fix: an operation that ends just before a waiter
 subscribes is not waited for until the timeout

---
 src/storage/disk/async_disk/io/completion.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..1d4cb26 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,9 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe before looking at the status: an operation that ends in between is announced
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,9 +570,6 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
@@ -809,6 +809,9 @@ impl CompletionTracker {
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
 
+        // Subscribe before looking at the statuses: an operation that ends in between is announced
+        let mut event_receiver = self.event_sender.subscribe();
+
         // Check for already completed operations
         {
             let operations = self.operations.read().await;
@@ -839,9 +842,6 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
-- 
2.43.0


From c97fd5296dd1256289a910813ff3df3c4758ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 23/60] fix: a waiter that misses completion events looks the
 status up instead of giving up

---
 src/storage/disk/async_disk/io/completion.rs | 70 ++++++++++++++------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 1d4cb26..8204549 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -574,19 +574,26 @@ impl CompletionTracker {
         tokio::select! {
             // Wait for operation completion event
             result = async {
-                while let Ok(event) = event_receiver.recv().await {
-                    if event.operation_id == op_id {
-                        return event.result;
-                    }
-                }
-                // If the broadcast channel is closed, check final status
-                let operations = self.operations.read().await;
-                match operations.get(&op_id) {
-                    Some(OperationStatus::Completed { result, .. }) => result.clone(),
-                    Some(OperationStatus::Cancelled { reason, .. }) => {
-                        OperationResult::Error(format!("Operation was cancelled: {}", reason))
+                loop {
+                    let missed = match event_receiver.recv().await {
+                        Ok(event) => {
+                            if event.operation_id == op_id {
+                                return event.result;
+                            }
+                            continue;
+                        },
+                        Err(e) => matches!(e, broadcast::error::RecvError::Lagged(_)),
+                    };
+                    // Events were missed or the channel is closed, check the status
+                    let operations = self.operations.read().await;
+                    match operations.get(&op_id) {
+                        Some(OperationStatus::Completed { result, .. }) => return result.clone(),
+                        Some(OperationStatus::Cancelled { reason, .. }) => {
+                            return OperationResult::Error(format!("Operation was cancelled: {}", reason));
+                        }
+                        Some(OperationStatus::Pending { .. }) if missed => {}
+                        _ => return OperationResult::Error("Operation completed without notification".to_string()),
                     }
-                    _ => OperationResult::Error("Operation completed without notification".to_string()),
                 }
             } => {
                 Ok(result)
@@ -846,14 +853,37 @@ impl CompletionTracker {
             // Wait for all remaining operations
             _ = async {
                 while !remaining_ids.is_empty() {
-                    if let Ok(event) = event_receiver.recv().await {
-                        if remaining_ids.contains(&event.operation_id) {
-                            results.push((event.operation_id, event.result));
-                            remaining_ids.remove(&event.operation_id);
-                        }
-                    } else {
-                        // Channel closed, break
-                        break;
+                    match event_receiver.recv().await {
+                        Ok(event) => {
+                            if remaining_ids.contains(&event.operation_id) {
+                                results.push((event.operation_id, event.result));
+                                remaining_ids.remove(&event.operation_id);
+                            }
+                        },
+                        Err(broadcast::error::RecvError::Lagged(_)) => {
+                            // Events were missed, check the statuses
+                            let operations = self.operations.read().await;
+                            for &op_id in op_ids {
+                                if !remaining_ids.contains(&op_id) {
+                                    continue;
+                                }
+                                match operations.get(&op_id) {
+                                    Some(OperationStatus::Completed { result, .. }) => {
+                                        results.push((op_id, result.clone()));
+                                        remaining_ids.remove(&op_id);
+                                    },
+                                    Some(OperationStatus::Cancelled { reason, .. }) => {
+                                        results.push((
+                                            op_id,
+                                            OperationResult::Error(format!("Operation was cancelled: {}", reason)),
+                                        ));
+                                        remaining_ids.remove(&op_id);
+                                    },
+                                    _ => {},
+                                }
+                            }
+                        },
+                        Err(broadcast::error::RecvError::Closed) => break,
                     }
                 }
             } => {}
-- 
2.43.0


From 9a0d3bbc879fdeff17e363552323614f9a8b5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:39 +0000
Subject: [PATCH 24/60] fix: direct page reads and writes hand the kernel an
 aligned buffer

---
 src/storage/disk/async_disk/io/executor.rs | 32 +++++++++++++---------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/storage/disk/async_disk/io/executor.rs b/src/storage/disk/async_disk/io/executor.rs
index 5dd217d..6e8143e 100644
--- a/src/storage/disk/async_disk/io/executor.rs
+++ b/src/storage/disk/async_disk/io/executor.rs
@@ -294,7 +294,7 @@ use tokio::sync::Mutex;
 
 use super::operations::IOOperationType;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
-use crate::storage::disk::direct_io::{AlignedBuffer, DirectIOConfig};
+use crate::storage::disk::direct_io::{DirectIOConfig, read_aligned, write_aligned};
 
 /// I/O operation executor responsible for executing operations
 ///
@@ -422,10 +422,15 @@ impl IOOperationExecutor {
         file.seek(std::io::SeekFrom::Start(offset)).await?;
 
         if self.db_direct_io_config.enabled {
-            // Use aligned buffer for direct I/O
-            let mut aligned_buf = AlignedBuffer::new(size, self.db_direct_io_config.alignment);
-            file.read_exact(aligned_buf.as_mut_slice()).await?;
-            Ok(aligned_buf.to_vec())
+            // Tokio's File reads through a buffer of its own, which is not aligned
+            let config = self.db_direct_io_config.clone();
+            let mut std_file = file.try_clone().await?.into_std().await;
+            let aligned_buf = tokio::task::spawn_blocking(move || {
+                read_aligned(&mut std_file, offset, size, &config)
+            })
+            .await
+            .map_err(std::io::Error::other)??;
+            Ok(aligned_buf[..size].to_vec())
         } else {
             // Use standard buffer for buffered I/O
             let mut buffer = vec![0u8; size];
@@ -478,14 +483,15 @@ impl IOOperationExecutor {
         file.seek(std::io::SeekFrom::Start(offset)).await?;
 
         if self.db_direct_io_config.enabled {
-            // Use aligned buffer for direct I/O
-            // DB_PAGE_SIZE (4096) is already aligned, but we ensure the buffer is aligned
-            let aligned_buf = AlignedBuffer::from_slice_with_size(
-                data,
-                DB_PAGE_SIZE as usize,
-                self.db_direct_io_config.alignment,
-            );
-            file.write_all(aligned_buf.as_slice()).await?;
+            // Tokio's File writes through a buffer of its own, which is not aligned
+            let config = self.db_direct_io_config.clone();
+            let mut std_file = file.try_clone().await?.into_std().await;
+            let data = data.to_vec();
+            tokio::task::spawn_blocking(move || {
+                write_aligned(&mut std_file, offset, &data, &config)
+            })
+            .await
+            .map_err(std::io::Error::other)??;
         } else {
             // Use standard write for buffered I/O
             file.write_all(data).await?;
-- 
2.43.0


From 3f6beaf2f11f8c574fe1db1f6852ec6d6ca75f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:25 +0000
Subject: [PATCH 25/60] fix: storing a page in the cache replaces every older
 copy of it

---
 .../disk/async_disk/cache/cache_manager.rs    | 79 +++++++++++--------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..92f86bc 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -235,7 +235,7 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 use std::time::Instant;
 
-use tokio::sync::RwLock;
+use tokio::sync::{RwLock, RwLockWriteGuard};
 
 use super::fifo::FIFOCache;
 use super::lfu::LFUCache;
@@ -1223,15 +1223,33 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        let mut hot_cache = Self::lock_tier(&self.hot_cache);
+        let mut warm_cache = Self::lock_tier(&self.warm_cache);
+        let mut cold_cache = Self::lock_tier(&self.cold_cache);
+
+        // Wrap data in Arc for efficient sharing between cache levels
+        let data_arc = Arc::new(data);
+
+        // Whatever is decided below, no tier may go on serving the bytes this store replaces
+        if hot_cache.contains(&page_id) {
+            hot_cache.insert(page_id, Arc::clone(&data_arc));
+        }
+        if warm_cache.contains(&page_id) {
+            warm_cache.insert(page_id, Self::page_data(&data_arc, DataTemperature::Warm));
+        }
+        if cold_cache.contains(&page_id) {
+            cold_cache.insert(page_id, Self::page_data(&data_arc, DataTemperature::Cold));
+        }
+
         // Check admission controller first
-        if !self.should_admit_page(page_id, &data) {
+        if !self.should_admit_page(page_id, &data_arc) {
             return;
         }
 
         // Check for duplicate pages
         let mut should_store = true;
         if let Ok(mut dedup) = self.dedup_engine.try_write()
-            && let Some(_existing_page) = dedup.check_duplicate(page_id, &data)
+            && let Some(_existing_page) = dedup.check_duplicate(page_id, &data_arc)
         {
             // This is a duplicate page, don't store it
             should_store = false;
@@ -1245,44 +1263,15 @@ impl CacheManager {
         // Determine the appropriate cache level based on access patterns
         let temperature = self.determine_data_temperature(page_id);
 
-        // Wrap data in Arc for efficient sharing between cache levels
-        let data_arc = Arc::new(data);
-
         match temperature {
             DataTemperature::Hot => {
-                if let Ok(mut cache) = self.hot_cache.try_write() {
-                    <LRUKCache<PageId, Arc<Vec<u8>>> as CoreCache<PageId, Arc<Vec<u8>>>>::insert(
-                        &mut cache,
-                        page_id,
-                        Arc::clone(&data_arc),
-                    );
-                }
+                hot_cache.insert(page_id, Arc::clone(&data_arc));
             },
             DataTemperature::Warm => {
-                let page_data = PageData {
-                    data: Arc::clone(&data_arc),
-                    last_accessed: Instant::now(),
-                    access_count: 1,
-                    temperature: temperature.clone(),
-                };
-                if let Ok(mut cache) = self.warm_cache.try_write() {
-                    <LFUCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
-                        &mut cache, page_id, page_data,
-                    );
-                }
+                warm_cache.insert(page_id, Self::page_data(&data_arc, temperature));
             },
             _ => {
-                let page_data = PageData {
-                    data: Arc::clone(&data_arc),
-                    last_accessed: Instant::now(),
-                    access_count: 1,
-                    temperature: temperature.clone(),
-                };
-                if let Ok(mut cache) = self.cold_cache.try_write() {
-                    <FIFOCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
-                        &mut cache, page_id, page_data,
-                    );
-                }
+                cold_cache.insert(page_id, Self::page_data(&data_arc, temperature));
             },
         }
 
@@ -1290,6 +1279,26 @@ impl CacheManager {
         self.record_access_pattern(page_id);
     }
 
+    /// Takes a tier's write lock. Tiers are only held for short synchronous sections.
+    fn lock_tier<T>(tier: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
+        loop {
+            if let Ok(guard) = tier.try_write() {
+                return guard;
+            }
+            std::thread::yield_now();
+        }
+    }
+
+    /// Wraps page bytes for the warm and cold tiers.
+    fn page_data(data: &Arc<Vec<u8>>, temperature: DataTemperature) -> PageData {
+        PageData {
+            data: Arc::clone(data),
+            last_accessed: Instant::now(),
+            access_count: 1,
+            temperature,
+        }
+    }
+
     /// Determines whether a page should be admitted to the cache.
     ///
     /// Implements the admission control policy based on memory pressure,
-- 
2.43.0


From 2da5e080c967eaa62ef790b6e82222f4ab64c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:25 +0000
Subject: [PATCH 26/60] fix: a write that finds the write buffer full, or a
 flush that fails, loses no page

---
 .../disk/async_disk/memory/write_manager.rs   | 37 +++++++++++++++----
 .../async_disk/memory/write_staging_buffer.rs | 28 ++++++++++++++
 2 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..fa4e252 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -316,7 +316,7 @@ impl WriteManager {
         );
 
         // Step 2: Add to buffer manager with compression
-        let needs_flush = {
+        let (buffer_accepted, needs_flush) = {
             let mut buffer = self.buffer_manager.lock().await;
             let stats_before = buffer.get_stats();
             log::debug!(
@@ -325,7 +325,7 @@ impl WriteManager {
                 stats_before.buffer_size_bytes
             );
 
-            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data)?;
+            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data.clone())?;
 
             let stats_after = buffer.get_stats();
             log::debug!(
@@ -337,7 +337,7 @@ impl WriteManager {
 
             if !buffer_accepted {
                 log::debug!("WriteManager::buffer_write buffer full, needs flush");
-                true // Buffer is full, needs flush
+                (false, true) // Buffer is full, needs flush
             } else {
                 // Check if we should flush based on coordinator's decisions
                 let stats = buffer.get_stats();
@@ -355,12 +355,21 @@ impl WriteManager {
                     flush_decision,
                     should_flush
                 );
-                should_flush
+                (true, should_flush)
             }
         };
 
         // Step 3: Coordinate flush if needed
-        let flushed_pages = if needs_flush {
+        let flushed_pages = if !buffer_accepted {
+            // Make room, then stage the write that did not fit
+            let mut pages = self.force_flush(provider).await?;
+            let mut buffer = self.buffer_manager.lock().await;
+            if !buffer.buffer_write(page_id, coalesced_data.clone())? {
+                // Larger than the whole buffer: written through by the caller
+                pages.push((page_id, coalesced_data));
+            }
+            if pages.is_empty() { None } else { Some(pages) }
+        } else if needs_flush {
             log::debug!("WriteManager::buffer_write triggering flush");
             let pages = self.flush(provider).await?;
             log::debug!(
@@ -376,6 +385,16 @@ impl WriteManager {
         Ok(flushed_pages)
     }
 
+    /// Returns the bytes of a page whose latest write is still staged
+    pub async fn staged_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.staged_page(page_id)
+    }
+
+    /// Takes back flushed pages that could not be written to disk
+    pub async fn restage(&self, pages: Vec<(PageId, Vec<u8>)>) {
+        self.buffer_manager.lock().await.restage(pages);
+    }
+
     /// Attempts to coalesce a write using the coalescing engine
     async fn try_coalesce_write(&self, page_id: PageId, data: Vec<u8>) -> IoResult<Vec<u8>> {
         let mut coalescing = self.coalescing_engine.write().await;
@@ -500,10 +519,14 @@ impl WriteManager {
         );
 
         // Step 2: Apply durability guarantees
-        let _durability_result = self
+        if let Err(e) = self
             .durability_manager
             .apply_durability(&pages_to_flush, provider)
-            .await?;
+            .await
+        {
+            self.restage(pages_to_flush).await;
+            return Err(e);
+        }
 
         log::debug!(
             "WriteManager::flush_internal completed successfully with {} pages",
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..6405c34 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -325,6 +325,34 @@ impl WriteStagingBuffer {
         Ok(true)
     }
 
+    /// Returns the bytes staged for a page, if a write of it is waiting to be flushed
+    pub fn staged_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer.buffer.get(&page_id).map(|data| {
+            if self.buffer.compression_enabled {
+                self.decompress_data(data)
+            } else {
+                data.clone()
+            }
+        })
+    }
+
+    /// Puts drained pages back after a failed flush, keeping any newer write of the same page
+    ///
+    /// The size limit is not applied: these writes were accepted before.
+    pub fn restage(&mut self, pages: Vec<(PageId, Vec<u8>)>) {
+        for (page_id, data) in pages {
+            if self.buffer.buffer.contains_key(&page_id) {
+                continue;
+            }
+            let size = data.len();
+            self.buffer.buffer.insert(page_id, data);
+            self.buffer
+                .buffer_size_bytes
+                .fetch_add(size, Ordering::Relaxed);
+            self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
+        }
+    }
+
     /// Drains all buffered writes and resets buffer state
     pub fn drain_buffer(&mut self) -> Vec<(PageId, Vec<u8>)> {
         let pages = self.buffer.buffer.drain().collect();
-- 
2.43.0


From a3094a8598b2760e38ca1c17971533e620183d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:40 +0000
Subject: [PATCH 27/60] fix: page reads see staged writes, and pages on their
 way to disk are never overtaken or lost

---
 src/storage/disk/async_disk/manager.rs | 152 ++++++++++++++++---------
 1 file changed, 99 insertions(+), 53 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..4b1c653 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -287,6 +287,11 @@ pub struct AsyncDiskManager {
     // State tracking
     is_shutting_down: Arc<AtomicBool>,
     background_tasks: Mutex<Vec<JoinHandle<()>>>,
+
+    /// Held shared by reads that go past the cache, exclusively while a write is staged or
+    /// staged pages are written out: a page is never looked for on disk while its bytes are
+    /// on their way there, and two versions of it never race to the disk or to the cache
+    page_order: RwLock<()>,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -401,6 +406,7 @@ impl AsyncDiskManager {
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
+            page_order: RwLock::new(()),
         };
 
         info!(
@@ -452,6 +458,16 @@ impl AsyncDiskManager {
             page_id, priority
         );
 
+        let _order = self.page_order.read().await;
+
+        // The latest write may still be staged
+        if let Some(data) = self.write_manager.staged_page(page_id).await {
+            if self.config.cache_size_mb > 0 {
+                self.cache_manager.store_page(page_id, data.clone());
+            }
+            return Ok(data);
+        }
+
         // Use scheduler if work-stealing is enabled
         if self.config.work_stealing_enabled {
             self.schedule_read_operation(page_id, priority, start_time)
@@ -587,25 +603,7 @@ impl AsyncDiskManager {
 
         // Buffer the write using write manager
         debug!("Buffering write for page {}", page_id);
-        let flushed_pages = self
-            .write_manager
-            .buffer_write(page_id, data.clone(), self)
-            .await?;
-
-        // Update cache if caching is enabled
-        if self.config.cache_size_mb > 0 {
-            trace!("Updating cache for page {}", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
-        }
-
-        // Write any flushed pages to disk
-        if let Some(pages) = flushed_pages {
-            debug!(
-                "Writing {} flushed pages to disk from buffer_write",
-                pages.len()
-            );
-            self.write_pages_to_disk(pages).await?;
-        }
+        self.stage_page(page_id, &data).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -626,6 +624,38 @@ impl AsyncDiskManager {
         Ok(())
     }
 
+    /// Stages a write, publishes it in the cache and writes out the pages this flushed
+    async fn stage_page(&self, page_id: PageId, data: &[u8]) -> IoResult<()> {
+        let _order = self.page_order.write().await;
+
+        let buffered = self
+            .write_manager
+            .buffer_write(page_id, data.to_vec(), self)
+            .await;
+
+        // Update cache if caching is enabled
+        if self.config.cache_size_mb > 0 {
+            trace!("Updating cache for page {}", page_id);
+            if buffered.is_ok() {
+                self.cache_manager.store_page(page_id, data.to_vec());
+            } else if let Some(staged) = self.write_manager.staged_page(page_id).await {
+                // A failed flush may have left the write staged: the cache follows it
+                self.cache_manager.store_page(page_id, staged);
+            }
+        }
+
+        // Write any flushed pages to disk
+        if let Some(pages) = buffered? {
+            debug!(
+                "Writing {} flushed pages to disk from buffer_write",
+                pages.len()
+            );
+            self.write_pages_to_disk(pages).await?;
+        }
+
+        Ok(())
+    }
+
     /// Determines if a flush should be triggered based on configuration
     async fn should_trigger_flush(&self) -> bool {
         // Check write buffer threshold
@@ -651,6 +681,8 @@ impl AsyncDiskManager {
         debug!("Flushing writes with durability");
         let start_time = std::time::Instant::now();
 
+        let order = self.page_order.write().await;
+
         // Get buffered pages to flush
         let pages = self.write_manager.force_flush(self).await?;
 
@@ -659,6 +691,8 @@ impl AsyncDiskManager {
             self.write_pages_to_disk(pages.clone()).await?;
         }
 
+        drop(order);
+
         // Apply durability based on configuration
         // Note: write_manager.force_flush(self) already applies durability if configured,
         // but we might want to double check here if the pages were empty (no flush triggered internally)
@@ -724,14 +758,24 @@ impl AsyncDiskManager {
     }
 
     /// Writes multiple pages to disk
+    ///
+    /// Pages that could not be written go back to the write buffer
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
+        let result = self.try_write_pages_to_disk(&pages).await;
+        if result.is_err() {
+            self.write_manager.restage(pages).await;
+        }
+        result
+    }
+
+    async fn try_write_pages_to_disk(&self, pages: &[(PageId, Vec<u8>)]) -> IoResult<()> {
         debug!("Writing {} pages to disk", pages.len());
         let start_time = Instant::now();
         let mut total_bytes = 0;
 
         let io_engine = self.io_engine.read().await;
 
-        for (page_id, data) in &pages {
+        for (page_id, data) in pages {
             trace!(
                 "Writing page {} to disk (size: {} bytes)",
                 page_id,
@@ -740,10 +784,11 @@ impl AsyncDiskManager {
             io_engine.write_page(*page_id, data).await?;
             total_bytes += data.len() as u64;
         }
+        drop(io_engine);
 
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
-        self.write_manager.apply_durability(&pages, self).await?;
+        self.write_manager.apply_durability(pages, self).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -801,10 +846,26 @@ impl AsyncDiskManager {
     /// Schedules a batch read operation through the scheduler
     async fn schedule_batch_read_operation(&self, page_ids: Vec<PageId>) -> IoResult<Vec<Vec<u8>>> {
         let start_time = Instant::now();
+        let _order = self.page_order.read().await;
+
+        // Pages whose latest write is still staged are not looked for on disk
+        let mut results = Vec::with_capacity(page_ids.len());
+        let mut on_disk = Vec::new();
+        for page_id in &page_ids {
+            let staged = self.write_manager.staged_page(*page_id).await;
+            if staged.is_none() {
+                on_disk.push(*page_id);
+            }
+            results.push(staged);
+        }
+        if on_disk.is_empty() {
+            return Ok(results.into_iter().flatten().collect());
+        }
+
         let (sender, receiver) = oneshot::channel();
 
         let task = IOTask {
-            task_type: IOTaskType::BatchRead(page_ids.clone()),
+            task_type: IOTaskType::BatchRead(on_disk.clone()),
             priority: IOPriority::Normal,
             creation_time: start_time,
             completion_callback: Some(sender),
@@ -832,17 +893,14 @@ impl AsyncDiskManager {
 
                 // Parse the combined data back into individual pages
                 // This is a simplified approach - in practice, you'd need proper serialization
-                let chunk_size = data.len() / page_ids.len();
-                let mut results = Vec::new();
-                for i in 0..page_ids.len() {
-                    let start = i * chunk_size;
-                    let end = if i == page_ids.len() - 1 {
-                        data.len()
-                    } else {
-                        start + chunk_size
-                    };
-                    results.push(data[start..end].to_vec());
-                }
+                let chunk_size = data.len() / on_disk.len();
+                let mut chunks = data.chunks(chunk_size);
+                let results: Vec<Vec<u8>> = results
+                    .into_iter()
+                    .filter_map(|staged| {
+                        staged.or_else(|| chunks.next().map(|chunk| chunk.to_vec()))
+                    })
+                    .collect();
 
                 // Record individual metrics for this chunk
                 let elapsed = start_time.elapsed();
@@ -896,25 +954,7 @@ impl AsyncDiskManager {
             for (page_id, data) in chunk {
                 Self::validate_page_data_len(data.len())?;
                 trace!("Buffering page {} in batch write", page_id);
-                let flushed_pages = self
-                    .write_manager
-                    .buffer_write(*page_id, data.clone(), self)
-                    .await?;
-
-                // Write any flushed pages to disk immediately
-                if let Some(pages) = flushed_pages {
-                    debug!(
-                        "Writing {} flushed pages to disk from batch write",
-                        pages.len()
-                    );
-                    self.write_pages_to_disk(pages).await?;
-                }
-
-                // Update cache if caching is enabled
-                if self.config.cache_size_mb > 0 {
-                    self.cache_manager.store_page(*page_id, data.clone());
-                }
-
+                self.stage_page(*page_id, data).await?;
                 total_bytes += data.len() as u64;
             }
         }
@@ -1045,6 +1085,7 @@ impl AsyncDiskManager {
     /// Forces flush of all pending writes
     pub async fn force_flush_all(&self) -> IoResult<()> {
         warn!("Force flush all requested");
+        let order = self.page_order.write().await;
         let pages = self.write_manager.force_flush(self).await?;
 
         if !pages.is_empty() {
@@ -1052,12 +1093,17 @@ impl AsyncDiskManager {
 
             // Use scheduler for large batches if work-stealing is enabled
             if self.config.work_stealing_enabled && pages.len() > self.config.batch_size {
-                self.schedule_batch_write_operation(pages).await?;
+                if let Err(e) = self.schedule_batch_write_operation(pages.clone()).await {
+                    self.write_manager.restage(pages).await;
+                    return Err(e);
+                }
             } else {
                 self.write_pages_to_disk(pages).await?;
             }
         }
 
+        drop(order);
+
         // Force sync regardless of policy
         debug!("Force syncing to disk");
         self.sync().await?;
-- 
2.43.0


From c77f0a86e3138b8dbcc3379d14df586426ed9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:40 +0000
Subject: [PATCH 28/60] fix: tasks submitted to the disk scheduler are executed

---
 src/storage/disk/async_disk/manager.rs | 64 +++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 4b1c653..10d1818 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -294,6 +294,14 @@ pub struct AsyncDiskManager {
     page_order: RwLock<()>,
 }
 
+impl Drop for AsyncDiskManager {
+    fn drop(&mut self) {
+        for task in self.background_tasks.get_mut().drain(..) {
+            task.abort();
+        }
+    }
+}
+
 impl DurabilityProvider for AsyncDiskManager {
     fn sync_data(&self) -> impl Future<Output = IoResult<()>> + Send {
         self.sync()
@@ -395,6 +403,19 @@ impl AsyncDiskManager {
             config.io_threads
         );
         let scheduler = Arc::new(WorkStealingScheduler::new(config.io_threads));
+        let mut background_tasks = Vec::new();
+        if config.work_stealing_enabled {
+            for worker_id in 0..config.io_threads {
+                let scheduler = Arc::clone(&scheduler);
+                let io_engine = Arc::clone(&io_engine);
+                background_tasks.push(tokio::spawn(async move {
+                    let mut tasks = scheduler.get_worker_receiver(worker_id).lock().await;
+                    while let Some(task) = tasks.recv().await {
+                        Self::run_scheduled_task(&io_engine, task).await;
+                    }
+                }));
+            }
+        }
 
         // Create AsyncDiskManager
         let manager = Self {
@@ -405,7 +426,7 @@ impl AsyncDiskManager {
             scheduler,
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
-            background_tasks: Mutex::new(Vec::new()),
+            background_tasks: Mutex::new(background_tasks),
             page_order: RwLock::new(()),
         };
 
@@ -478,6 +499,47 @@ impl AsyncDiskManager {
         }
     }
 
+    /// Runs a task taken from the scheduler and answers whoever submitted it
+    async fn run_scheduled_task(io_engine: &RwLock<AsyncIOEngine>, task: IOTask) {
+        let engine = io_engine.read().await;
+        let result = match task.task_type {
+            IOTaskType::Read(page_id) => engine.read_page(page_id).await,
+            IOTaskType::BatchRead(page_ids) | IOTaskType::Prefetch(page_ids) => {
+                Self::read_pages_in_order(&engine, &page_ids).await
+            },
+            IOTaskType::Write(page_id, data) => {
+                engine.write_page(page_id, &data).await.map(|_| Vec::new())
+            },
+            IOTaskType::BatchWrite(pages) => Self::write_pages_in_order(&engine, &pages)
+                .await
+                .map(|_| Vec::new()),
+            IOTaskType::Flush | IOTaskType::Sync => engine.sync().await.map(|_| Vec::new()),
+        };
+        if let Some(callback) = task.completion_callback {
+            let _ = callback.send(result);
+        }
+    }
+
+    /// Reads pages one after the other into one buffer
+    async fn read_pages_in_order(engine: &AsyncIOEngine, page_ids: &[PageId]) -> IoResult<Vec<u8>> {
+        let mut all = Vec::with_capacity(page_ids.len() * DB_PAGE_SIZE as usize);
+        for page_id in page_ids {
+            all.extend(engine.read_page(*page_id).await?);
+        }
+        Ok(all)
+    }
+
+    /// Writes pages one after the other
+    async fn write_pages_in_order(
+        engine: &AsyncIOEngine,
+        pages: &[(PageId, Vec<u8>)],
+    ) -> IoResult<()> {
+        for (page_id, data) in pages {
+            engine.write_page(*page_id, data).await?;
+        }
+        Ok(())
+    }
+
     /// Schedules a read operation through the work-stealing scheduler
     async fn schedule_read_operation(
         &self,
-- 
2.43.0


From 4858dda62344602d4ff8068a04cefbc65e1e1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 29/60] fix: a heap LFU cache without capacity holds nothing

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..13d5fd9 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,11 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        // A cache without room holds nothing
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From fa1d7ca30b55313d872742f9ca0ab63581eeacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:49 +0000
Subject: [PATCH 30/60] fix: a page written through replaces its drained older
 version

---
 src/storage/disk/async_disk/memory/write_manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index fa4e252..174fec3 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -366,6 +366,8 @@ impl WriteManager {
             let mut buffer = self.buffer_manager.lock().await;
             if !buffer.buffer_write(page_id, coalesced_data.clone())? {
                 // Larger than the whole buffer: written through by the caller
+                // in place of the older version that was just drained
+                pages.retain(|(drained, _)| *drained != page_id);
                 pages.push((page_id, coalesced_data));
             }
             if pages.is_empty() { None } else { Some(pages) }
-- 
2.43.0


From 0f1ac4ae660b768116737cedbbae85b77f477e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 31/60] fix: a new page nobody wrote to is written to disk when
 it is evicted

---
 src/storage/page/page_guard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/page/page_guard.rs b/src/storage/page/page_guard.rs
index 7d3e1f3..ee9d778 100644
--- a/src/storage/page/page_guard.rs
+++ b/src/storage/page/page_guard.rs
@@ -220,7 +220,8 @@ impl<P: Page + 'static> PageGuard<P> {
             page,
             page_id,
             unpinner,
-            dirty: AtomicBool::new(false),
+            // Not on disk yet: eviction must write it even if nobody changes it.
+            dirty: AtomicBool::new(true),
         }
     }
 
-- 
2.43.0


From d4fb37f1f91a917ef8d2f58cba76fe231e3083d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:12 +0000
Subject: [PATCH 32/60] fix: eviction keeps a page that could not be written to
 disk

---
 src/buffer/buffer_pool_manager_async.rs | 28 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..9d45823 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -975,7 +975,9 @@ impl BufferPoolManager {
     }
 
     /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
+    ///
+    /// Returns `false`, leaving the page in its frame, if it could not be flushed.
+    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) -> bool {
         // Check if page is dirty and flush if necessary
         let page_to_flush = {
             let pages = self.pages.read();
@@ -994,6 +996,7 @@ impl BufferPoolManager {
                     "Failed to flush page {} during eviction: {}",
                     old_page_id, e
                 );
+                return false;
             }
         }
 
@@ -1012,6 +1015,7 @@ impl BufferPoolManager {
             "Successfully evicted page {} from frame {}",
             old_page_id, frame_id
         );
+        true
     }
 
     /// Gets an available frame, either from the free list or by evicting a page.
@@ -1031,6 +1035,8 @@ impl BufferPoolManager {
         // No free frames, try to evict using LRU-K
         trace!("No free frames, attempting eviction");
         let mut replacer = self.replacer.write();
+        let mut unflushed: Vec<FrameId> = Vec::new();
+        let mut available = None;
 
         // Try multiple eviction attempts if needed
         for _ in 0..self.pool_size {
@@ -1053,11 +1059,16 @@ impl BufferPoolManager {
                 };
 
                 // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
+                if let Some(old_page_id) = page_id
+                    && !self.evict_old_page(frame_id, old_page_id)
+                {
+                    // Its page is not on disk: try another victim
+                    unflushed.push(frame_id);
+                    continue;
                 }
 
-                return Some(frame_id);
+                available = Some(frame_id);
+                break;
             }
 
             // If no frames are evictable, try to make some evictable
@@ -1077,8 +1088,13 @@ impl BufferPoolManager {
             }
         }
 
-        warn!("No evictable frames found after multiple attempts");
-        None
+        for frame_id in unflushed {
+            replacer.set_evictable(frame_id, true);
+        }
+        if available.is_none() {
+            warn!("No evictable frames found after multiple attempts");
+        }
+        available
     }
 
     /// Allocates and returns the next available page ID atomically.
-- 
2.43.0


From db45685dc0139df776b6801f34c88739a4721c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 33/60] fix: looking for evictable frames does not wait for
 latched pages

---
 src/buffer/buffer_pool_manager_async.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 9d45823..9d563e0 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1076,7 +1076,11 @@ impl BufferPoolManager {
             let pages = self.pages.read();
             for (i, page_opt) in pages.iter().enumerate() {
                 if let Some(page) = page_opt {
-                    let page_data = page.read();
+                    // A latched page is in use; waiting for it here, with the replacer
+                    // locked, would deadlock with its holder unpinning another page
+                    let Some(page_data) = page.try_read() else {
+                        continue;
+                    };
                     if page_data.get_pin_count() == 0 {
                         // Drop read lock before acquiring write lock
                         drop(page_data);
-- 
2.43.0


From b077dc3e6acee780516acc22210a4d58ac315130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 34/60] fix: a page that cannot be loaded gives its frame back

---
 src/buffer/buffer_pool_manager_async.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 9d563e0..1082083 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -620,6 +620,7 @@ impl BufferPoolManager {
             Ok(data) => data,
             Err(e) => {
                 error!("Failed to load page {} : {}", page_id, e);
+                self.free_list.write().push(frame_id);
                 return None;
             },
         };
@@ -633,6 +634,7 @@ impl BufferPoolManager {
             Some(page_guard)
         } else {
             error!("Failed to create page {} from data", page_id);
+            self.free_list.write().push(frame_id);
             None
         }
     }
-- 
2.43.0


From 46c041c5f36023565595a5d06f064c5ace4d3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 35/60] fix: clones of a buffer pool allocate distinct page ids

---
 src/buffer/buffer_pool_manager_async.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 1082083..9debfc1 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -241,7 +241,7 @@ pub struct BufferPoolManager {
     /// Maximum number of frames in the buffer pool.
     pool_size: usize,
     /// Atomic counter for generating unique page IDs.
-    next_page_id: AtomicU64,
+    next_page_id: Arc<AtomicU64>,
     /// Collection of page frames (L1 cache).
     pages: PageCollection,
     /// Mapping from page IDs to frame IDs.
@@ -329,7 +329,7 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: Arc::new(AtomicU64::new(0)),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
@@ -1833,7 +1833,7 @@ impl Clone for BufferPoolManager {
     fn clone(&self) -> Self {
         Self {
             pool_size: self.pool_size,
-            next_page_id: AtomicU64::new(self.next_page_id.load(Ordering::SeqCst)),
+            next_page_id: Arc::clone(&self.next_page_id),
             pages: Arc::clone(&self.pages),
             page_table: Arc::clone(&self.page_table),
             replacer: Arc::clone(&self.replacer),
-- 
2.43.0


From b9b0638b1da3ff17b8bfbff8401c585adffff4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:22 +0000
Subject: [PATCH 36/60] fix: a page changed while it is flushed stays dirty

---
 src/buffer/buffer_pool_manager_async.rs | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 9debfc1..e846b80 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1222,11 +1222,11 @@ impl BufferPoolManager {
         trace!("Writing page {} to disk with cache coordination", page_id);
 
         // Prepare data for writing
-        let data_buffer = {
+        let (data_buffer, written) = {
             let page_guard = page.read();
             let mut data = vec![0u8; DB_PAGE_SIZE as usize];
             data.copy_from_slice(page_guard.get_data());
-            data
+            (data, *page_guard.get_data())
         };
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
@@ -1238,7 +1238,10 @@ impl BufferPoolManager {
         // Mark page as clean after successful write
         {
             let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+            // Changes made while it was being written are not on disk yet
+            if *page_guard.get_data() == written {
+                page_guard.set_dirty(false);
+            }
         }
 
         trace!(
@@ -1258,11 +1261,11 @@ impl BufferPoolManager {
         page: &Arc<RwLock<dyn PageTrait>>,
     ) -> Result<(), String> {
         // Prepare data for writing
-        let data_buffer = {
+        let (data_buffer, written) = {
             let page_guard = page.read();
             let mut data = vec![0u8; DB_PAGE_SIZE as usize];
             data.copy_from_slice(page_guard.get_data());
-            data
+            (data, *page_guard.get_data())
         };
 
         // Use block_on for sync eviction path
@@ -1275,7 +1278,10 @@ impl BufferPoolManager {
         // Mark page as clean after successful write
         {
             let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+            // Changes made while it was being written are not on disk yet
+            if *page_guard.get_data() == written {
+                page_guard.set_dirty(false);
+            }
         }
 
         trace!(
@@ -1468,11 +1474,15 @@ impl BufferPoolManager {
             Ok(()) => {
                 // Mark pages as clean
                 let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
+                for (page_id, data) in &dirty_pages {
                     if let Some(frame_id) = self.page_table.read().get(page_id)
                         && let Some(Some(page)) = pages.get(*frame_id as usize)
                     {
-                        page.write().set_dirty(false);
+                        let mut page_guard = page.write();
+                        // Changes made while it was being written are not on disk yet
+                        if page_guard.get_data()[..] == data[..] {
+                            page_guard.set_dirty(false);
+                        }
                     }
                 }
                 trace!(
-- 
2.43.0


From 37abaef1d31e4a596091c48d46a69a4d2adb623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:35 +0000
Subject: [PATCH 37/60] fix: a buffer pool flush or shutdown that succeeds left
 nothing unwritten

---
 src/buffer/buffer_pool_manager_async.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index e846b80..5d978d4 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -831,7 +831,10 @@ impl BufferPoolManager {
     /// the on-disk files to reflect the latest state *immediately*, this method provides a
     /// stronger guarantee by explicitly calling `AsyncDiskManager::flush()`.
     pub async fn flush_all_pages_durable(&self) -> Result<(), String> {
-        self.flush_all_pages_async().await;
+        let page_ids: Vec<PageId> = self.page_table.read().keys().cloned().collect();
+        for page_id in page_ids {
+            self.flush_page_async(page_id).await?;
+        }
         self.disk_manager
             .flush()
             .await
@@ -1769,8 +1772,11 @@ impl BufferPoolManager {
         let dirty_count = self.flush_dirty_pages_batch_async(self.pool_size).await?;
         info!("Flushed {} dirty pages during shutdown", dirty_count);
 
-        // Sync to ensure all data is written
-        self.sync_to_disk().await?;
+        // Write what the disk manager still buffers, and sync
+        self.disk_manager
+            .force_flush_all()
+            .await
+            .map_err(|e| format!("Failed to flush disk manager: {}", e))?;
 
         // Shutdown the disk manager
         let disk_manager = Arc::clone(&self.disk_manager);
-- 
2.43.0


From 1f5ef52ff2bbc4ed6682016abf964b98cb592b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 38/60] fix: loading a batch of pages keeps their order and
 registers every page it returns

---
 src/buffer/buffer_pool_manager_async.rs | 58 ++++++++++++-------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 5d978d4..846730d 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1328,19 +1328,19 @@ impl BufferPoolManager {
         trace!("Loading {} pages in batch", page_ids.len());
 
         // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
+        let mut guards: Vec<Option<PageGuard<T>>> = Vec::with_capacity(page_ids.len());
         let mut pages_to_load = Vec::new();
+        let mut slots = Vec::new();
 
         for page_id in page_ids {
-            if let Some(page) = self.get_page_internal(page_id) {
-                // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
-                }
+            if page_id == INVALID_PAGE_ID || page_id >= self.next_page_id.load(Ordering::SeqCst) {
+                guards.push(None);
+            } else if let Some(page) = self.get_page_internal(page_id) {
+                guards.push(self.create_guard_from_existing::<T>(page_id, page));
             } else {
+                slots.push(guards.len());
                 pages_to_load.push(page_id);
+                guards.push(None);
             }
         }
 
@@ -1352,35 +1352,35 @@ impl BufferPoolManager {
                 .await
             {
                 Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
-                        }
+                    for (i, data) in pages_data.into_iter().enumerate() {
+                        guards[slots[i]] = self.install_loaded_page::<T>(pages_to_load[i], data);
                     }
                 },
                 Err(e) => {
                     error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
                 },
             }
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
-            .into_iter()
-            .map(|(_, guard)| guard)
-            .collect()
+        guards
+    }
+
+    /// Puts a page read from disk into a frame, unless it is already in the pool.
+    fn install_loaded_page<T: Page + 'static>(
+        self: &Arc<Self>,
+        page_id: PageId,
+        data: Vec<u8>,
+    ) -> Option<PageGuard<T>> {
+        if let Some(page) = self.get_page_internal(page_id) {
+            return self.create_guard_from_existing::<T>(page_id, page);
+        }
+
+        let guard = self.create_page_from_data::<T>(page_id, data)?;
+        let frame_id = self.get_available_frame()?;
+        self.evict_page_if_necessary(frame_id);
+        let page_arc = guard.get_page().clone();
+        self.update_page_metadata(frame_id, page_id, &page_arc);
+        Some(guard)
     }
 
     /// Creates a guard from an existing page in memory
-- 
2.43.0


From a5b1cd987e18d3faea3299f891772940620b2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:41 +0000
Subject: [PATCH 39/60] fix: deallocating a page also empties its frame

---
 src/buffer/buffer_pool_manager_async.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 846730d..2f10366 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -857,8 +857,11 @@ impl BufferPoolManager {
     pub fn deallocate_page(&mut self, page_id: PageId) {
         trace!("Deallocating page {}", page_id);
 
-        // Remove from page table
-        self.remove_page_from_table(page_id);
+        // Empty the frame as well: a frame left behind would later be evicted under this
+        // page's ID and overwrite whatever the page holds by then.
+        if let Err(e) = self.delete_page(page_id) {
+            warn!("Failed to deallocate page {}: {}", page_id, e);
+        }
 
         // Note: In a full implementation, we might want to track deallocated page IDs
         // for reuse, but for now we'll just remove it from the buffer pool
-- 
2.43.0


From 562e80d9d9b8cdba5ddb56b9671eb496e8a2478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 40/60] fix: a frame emptied at the second attempt does not
 stay evictable

---
 src/buffer/buffer_pool_manager_async.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 2f10366..f075e07 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -1101,7 +1101,10 @@ impl BufferPoolManager {
         }
 
         for frame_id in unflushed {
-            replacer.set_evictable(frame_id, true);
+            // A later attempt may have emptied the frame after all
+            if available != Some(frame_id) {
+                replacer.set_evictable(frame_id, true);
+            }
         }
         if available.is_none() {
             warn!("No evictable frames found after multiple attempts");
-- 
2.43.0


From cb17c9efec26e97eb845c13478076cea38a32a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 41/60] fix: waiting for the disk in the buffer pool does not
 starve on an exhausted tokio budget

---
 src/buffer/buffer_pool_manager_async.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index f075e07..4e59ddd 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -648,8 +648,11 @@ impl BufferPoolManager {
 
         // Use AsyncDiskManager's read_page which checks its multi-level cache first
         // This avoids duplication since AsyncDiskManager handles cache levels internally
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        // (unconstrained: the caller's task cannot yield here to renew its tokio budget)
+        futures::executor::block_on(tokio::task::unconstrained(async {
+            self.disk_manager.read_page(page_id).await
+        }))
+        .map_err(std::io::Error::other)
     }
 
     /// Load page bypassing AsyncDiskManager cache (BPM as sole cache)
@@ -659,8 +662,11 @@ impl BufferPoolManager {
         // When BPM wants to be the sole cache manager, we still use AsyncDiskManager
         // for I/O but could add a bypass_cache flag in the future
         // For now, we'll use the regular read_page but this could be optimized
-        futures::executor::block_on(async { self.disk_manager.read_page(page_id).await })
-            .map_err(std::io::Error::other)
+        // (unconstrained: the caller's task cannot yield here to renew its tokio budget)
+        futures::executor::block_on(tokio::task::unconstrained(async {
+            self.disk_manager.read_page(page_id).await
+        }))
+        .map_err(std::io::Error::other)
     }
 
     /// Creates a page from raw data with proper type checking
@@ -1278,9 +1284,10 @@ impl BufferPoolManager {
         };
 
         // Use block_on for sync eviction path
-        let result = futures::executor::block_on(async {
+        // (unconstrained: the caller's task cannot yield here to renew its tokio budget)
+        let result = futures::executor::block_on(tokio::task::unconstrained(async {
             self.disk_manager.write_page(page_id, data_buffer).await
-        });
+        }));
 
         result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
-- 
2.43.0


From 235751d66cc602a6d76acfb8074e01bdf56c2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:03 +0000
Subject: [PATCH 42/60] fix: FLOAT <= DECIMAL and FLOAT >= DECIMAL compare as <
 and > do

---
 src/types_db/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..418a9e7 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1503,7 +1503,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
@@ -1616,7 +1616,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
             _ => {
                 // Check if types match before comparing values
-- 
2.43.0


From 00fd42870e190492dbf84b4de4179f6296b1c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:03 +0000
Subject: [PATCH 43/60] fix: = and <> on structs compare the fields, not just
 the kind

---
 src/types_db/value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 418a9e7..a12dbad 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1350,6 +1350,7 @@ impl Type for Value {
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a == *b as f32),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) == *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a == *b),
+            (Val::Struct, Val::Struct) => CmpBool::from(self.struct_data == other.struct_data),
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
@@ -1401,6 +1402,7 @@ impl Type for Value {
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a != *b as f32),
             (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) != *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a != *b),
+            (Val::Struct, Val::Struct) => CmpBool::from(self.struct_data != other.struct_data),
             _ => {
                 // Check if types match before comparing values
                 if self.type_id_ != other.type_id_ {
-- 
2.43.0


From 30478c6754f3cb7beab4646796f5d1f95bcf5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 44/60] fix: comparing numbers of different types casts neither
 of them

---
 src/sql/execution/expressions/comparison_expression.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..cb4eae9 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -92,8 +92,9 @@ impl ComparisonExpression {
             return Ok(CmpBool::CmpNull);
         }
 
-        // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
+        // If types are different, try casting to make them comparable; numbers of
+        // different types are comparable as they are, and casting them loses digits
+        if lhs.get_type_id() != rhs.get_type_id() && !(lhs.is_numeric() && rhs.is_numeric()) {
             // Try casting left to right type first
             if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
@@ -131,7 +132,7 @@ impl ComparisonExpression {
             });
         }
 
-        // Types are the same, perform direct comparison
+        // Types are the same or both numeric, perform direct comparison
         let result = match self.comp_type {
             ComparisonType::Equal => lhs.compare_equals(rhs),
             ComparisonType::NotEqual => lhs.compare_not_equals(rhs),
-- 
2.43.0


From 75348b4dab343edd61188c86ecdf3cc67775cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 45/60] fix: BETWEEN with a NULL bound is unknown, and compares
 numbers of different types

---
 .../expressions/between_expression.rs         | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sql/execution/expressions/between_expression.rs b/src/sql/execution/expressions/between_expression.rs
index 3597c68..c83d961 100644
--- a/src/sql/execution/expressions/between_expression.rs
+++ b/src/sql/execution/expressions/between_expression.rs
@@ -7,7 +7,8 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct BetweenExpression {
@@ -38,6 +39,18 @@ impl BetweenExpression {
             children,
         }
     }
+
+    /// Three-valued `value >= low AND value <= high`, negated for NOT BETWEEN
+    fn check_bounds(&self, value: &Value, low: &Value, high: &Value) -> Value {
+        let above = value.compare_greater_than_equals(low);
+        let below = value.compare_less_than_equals(high);
+
+        match (above, below) {
+            (CmpBool::CmpFalse, _) | (_, CmpBool::CmpFalse) => Value::new(self.negated),
+            (CmpBool::CmpTrue, CmpBool::CmpTrue) => Value::new(!self.negated),
+            _ => Value::new(Val::Null),
+        }
+    }
 }
 
 impl ExpressionOps for BetweenExpression {
@@ -47,9 +60,7 @@ impl ExpressionOps for BetweenExpression {
         let high = self.high.evaluate(tuple, schema)?;
 
         // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check_bounds(&value, &low, &high))
     }
 
     fn evaluate_join(
@@ -70,9 +81,7 @@ impl ExpressionOps for BetweenExpression {
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
         // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.check_bounds(&value, &low, &high))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 85b1fba0bb9b14a64b167e31b4db4251453b1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 46/60] fix: op ALL is false when any comparison is, also after
 a NULL

---
 .../execution/expressions/all_expression.rs   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sql/execution/expressions/all_expression.rs b/src/sql/execution/expressions/all_expression.rs
index ef4ed22..efd2288 100644
--- a/src/sql/execution/expressions/all_expression.rs
+++ b/src/sql/execution/expressions/all_expression.rs
@@ -65,6 +65,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -85,14 +86,17 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // If any comparison is null and none is false,
+            // the result is null
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
@@ -129,6 +133,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -149,14 +154,17 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // If any comparison is null and none is false,
+            // the result is null
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
-- 
2.43.0


From 2f7344364809e6b3ea103403ccfe0c6bbd6178a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 47/60] fix: IS DISTINCT FROM takes equal numbers of different
 types as equal

---
 src/sql/execution/expressions/is_distinct_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/is_distinct_expression.rs b/src/sql/execution/expressions/is_distinct_expression.rs
index f601fde..e00e5d0 100644
--- a/src/sql/execution/expressions/is_distinct_expression.rs
+++ b/src/sql/execution/expressions/is_distinct_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -50,7 +51,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true
         } else {
-            left_val != right_val
+            left_val != right_val && left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
@@ -79,7 +80,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true // NULL IS DISTINCT FROM any non-NULL value
         } else {
-            left_val != right_val
+            left_val != right_val && left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
-- 
2.43.0


From 2a4f1928630481093a84d28750294ea742457890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 48/60] fix: negating the smallest integer is an error, not a
 panic or the same number

---
 .../expressions/unary_op_expression.rs        | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index fd49cb1..80d23fc 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -67,6 +67,25 @@ impl UnaryOpExpression {
             children: vec![expr],
         })
     }
+
+    /// The negated number; the smallest integer of a type has no negation in it
+    fn negate(val: &Value) -> Result<Value, ExpressionError> {
+        let negated = match val.get_val() {
+            Val::TinyInt(i) => i.checked_neg().map(Value::new),
+            Val::SmallInt(i) => i.checked_neg().map(Value::new),
+            Val::Integer(i) => i.checked_neg().map(Value::new),
+            Val::BigInt(i) => i.checked_neg().map(Value::new),
+            Val::Decimal(f) => Some(Value::new(-f)),
+            _ => {
+                return Err(ExpressionError::InvalidOperation(
+                    "Unary minus can only be applied to numeric values".to_string(),
+                ));
+            },
+        };
+
+        negated
+            .ok_or_else(|| ExpressionError::InvalidOperation("Unary minus overflows".to_string()))
+    }
 }
 
 impl ExpressionOps for UnaryOpExpression {
@@ -90,16 +109,7 @@ impl ExpressionOps for UnaryOpExpression {
                 if val.is_null() {
                     return Ok(Value::new(Val::Null));
                 }
-                match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
-                    Val::Decimal(f) => Ok(Value::new(-f)),
-                    _ => Err(ExpressionError::InvalidOperation(
-                        "Unary minus can only be applied to numeric values".to_string(),
-                    )),
-                }
+                Self::negate(&val)
             },
             _ => Err(ExpressionError::InvalidOperation(format!(
                 "Unsupported unary operator: {:?}",
@@ -136,16 +146,7 @@ impl ExpressionOps for UnaryOpExpression {
                 if val.is_null() {
                     return Ok(Value::new(Val::Null));
                 }
-                match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
-                    Val::Decimal(f) => Ok(Value::new(-f)),
-                    _ => Err(ExpressionError::InvalidOperation(
-                        "Unary minus can only be applied to numeric values".to_string(),
-                    )),
-                }
+                Self::negate(&val)
             },
             _ => Err(ExpressionError::InvalidOperation(format!(
                 "Unsupported unary operator: {:?}",
-- 
2.43.0


From 362eae3374afe06369c8bce11f9fb8b1d0db09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 49/60] fix: LIKE with % does not cut a multi-byte character

---
 src/sql/execution/expressions/like_expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..1d2d2d3 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -74,7 +74,8 @@ impl LikeExpression {
                     }
 
                     let remaining_value: String = value_chars.clone().collect();
-                    for i in 0..=remaining_value.len() {
+                    let ends = remaining_value.char_indices().map(|(i, _)| i);
+                    for i in ends.chain([remaining_value.len()]) {
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
-- 
2.43.0


From f6c5f0f9974579b3f1a5ef1d716c29a8c315db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:04 +0000
Subject: [PATCH 50/60] fix: LIKE is unknown when either side is NULL

---
 src/sql/execution/expressions/like_expression.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 1d2d2d3..7d33b5c 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -7,7 +7,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct LikeExpression {
@@ -121,6 +121,11 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
+        // LIKE is unknown when either side is NULL
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
@@ -142,6 +147,11 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
+        // LIKE is unknown when either side is NULL
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new(Val::Null));
+        }
+
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
 
-- 
2.43.0


From 67e356db3399ba18fef24b38ef1b9bad0aa1c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:19 +0000
Subject: [PATCH 51/60] fix: CASE skips a branch whose condition is unknown,
 and compares numbers of different types

---
 src/sql/execution/expressions/case_expression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..37fd424 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{self, CmpBool};
 use crate::types_db::value::{Val, Value};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -113,7 +114,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +124,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // An unknown condition does not select its branch
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +179,11 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    // An unknown condition does not select its branch
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
-- 
2.43.0


From c2250809a75a63e06f4c2c301320e898f0df46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:19 +0000
Subject: [PATCH 52/60] fix: AND and OR as binary operators follow three-valued
 logic, and a join evaluates operands once

---
 .../expressions/binary_op_expression.rs       | 85 +++++++++++--------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/src/sql/execution/expressions/binary_op_expression.rs b/src/sql/execution/expressions/binary_op_expression.rs
index 2d78b5d..2b0dedd 100644
--- a/src/sql/execution/expressions/binary_op_expression.rs
+++ b/src/sql/execution/expressions/binary_op_expression.rs
@@ -179,54 +179,65 @@ impl BinaryOpExpression {
         Ok(Value::from(result))
     }
 
+    /// The truth value of an operand of AND or OR: NULL is unknown
+    fn logical_operand(val: &Value) -> Result<Option<bool>, ExpressionError> {
+        match val.get_val() {
+            Val::Boolean(b) => Ok(Some(*b)),
+            Val::Null => Ok(None),
+            _ => Err(ExpressionError::InvalidOperation(
+                "Logical operations require boolean operands".to_string(),
+            )),
+        }
+    }
+
     fn evaluate_logical(
         &self,
         left_val: &Value,
         right_val: &Value,
     ) -> Result<Value, ExpressionError> {
-        match (left_val.get_val(), right_val.get_val()) {
-            (Val::Boolean(l), Val::Boolean(r)) => {
-                let result = match self.op {
-                    BinaryOperator::And => *l && *r,
-                    BinaryOperator::Or => *l || *r,
-                    _ => {
-                        return Err(ExpressionError::InvalidOperation(format!(
-                            "Invalid logical operator: {:?}",
-                            self.op
-                        )));
-                    },
-                };
-                Ok(Value::from(result))
+        let left = Self::logical_operand(left_val)?;
+        let right = Self::logical_operand(right_val)?;
+
+        // FALSE decides AND and TRUE decides OR, whatever the other side is
+        let deciding = match self.op {
+            BinaryOperator::And => false,
+            BinaryOperator::Or => true,
+            _ => {
+                return Err(ExpressionError::InvalidOperation(format!(
+                    "Invalid logical operator: {:?}",
+                    self.op
+                )));
             },
-            _ => Err(ExpressionError::InvalidOperation(
-                "Logical operations require boolean operands".to_string(),
-            )),
+        };
+        if left == Some(deciding) || right == Some(deciding) {
+            Ok(Value::from(deciding))
+        } else if left.is_none() || right.is_none() {
+            Ok(Value::new(Val::Null))
+        } else {
+            Ok(Value::from(!deciding))
         }
     }
-}
-
-impl ExpressionOps for BinaryOpExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_val = self.left.evaluate(tuple, schema)?;
-        let right_val = self.right.evaluate(tuple, schema)?;
 
+    fn evaluate_operator(
+        &self,
+        left_val: &Value,
+        right_val: &Value,
+    ) -> Result<Value, ExpressionError> {
         match self.op {
             BinaryOperator::Plus
             | BinaryOperator::Minus
             | BinaryOperator::Multiply
             | BinaryOperator::Divide
-            | BinaryOperator::Modulo => self.evaluate_arithmetic(&left_val, &right_val),
+            | BinaryOperator::Modulo => self.evaluate_arithmetic(left_val, right_val),
 
             BinaryOperator::Eq
             | BinaryOperator::NotEq
             | BinaryOperator::Gt
             | BinaryOperator::Lt
             | BinaryOperator::GtEq
-            | BinaryOperator::LtEq => self.evaluate_comparison(&left_val, &right_val),
+            | BinaryOperator::LtEq => self.evaluate_comparison(left_val, right_val),
 
-            BinaryOperator::And | BinaryOperator::Or => {
-                self.evaluate_logical(&left_val, &right_val)
-            },
+            BinaryOperator::And | BinaryOperator::Or => self.evaluate_logical(left_val, right_val),
 
             BinaryOperator::StringConcat => match (left_val.get_val(), right_val.get_val()) {
                 (Val::VarLen(l), Val::VarLen(r)) => Ok(Value::from(format!("{}{}", l, r))),
@@ -241,6 +252,15 @@ impl ExpressionOps for BinaryOpExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for BinaryOpExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_val = self.left.evaluate(tuple, schema)?;
+        let right_val = self.right.evaluate(tuple, schema)?;
+
+        self.evaluate_operator(&left_val, &right_val)
+    }
 
     fn evaluate_join(
         &self,
@@ -256,16 +276,7 @@ impl ExpressionOps for BinaryOpExpression {
             self.right
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Create a schema that matches our values
-        let temp_schema = Schema::new(vec![
-            Column::new("left_val", left_val.get_type_id()),
-            Column::new("right_val", right_val.get_type_id()),
-        ]);
-
-        self.evaluate(
-            &Tuple::new(&[left_val, right_val], &temp_schema, left_tuple.get_rid()),
-            &temp_schema,
-        )
+        self.evaluate_operator(&left_val, &right_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From c09096e6d3a49b4a3733f44533d46ffef17c9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:20 +0000
Subject: [PATCH 53/60] fix: an expression inside a join condition is evaluated
 on both rows

---
 .../expressions/abstract_expression.rs        | 124 +++++++++++++-----
 1 file changed, 93 insertions(+), 31 deletions(-)

diff --git a/src/sql/execution/expressions/abstract_expression.rs b/src/sql/execution/expressions/abstract_expression.rs
index a7a201b..57fafe5 100644
--- a/src/sql/execution/expressions/abstract_expression.rs
+++ b/src/sql/execution/expressions/abstract_expression.rs
@@ -239,12 +239,18 @@ impl ExpressionOps for Expression {
                 // For mock expressions, we'll just use the regular evaluate
                 expr.evaluate(left_tuple, left_schema)
             },
-            Self::Aggregate(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Aggregate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Window(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Cast(expr) => expr.evaluate(left_tuple, right_schema),
-            Self::Case(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Cast(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Case(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Function(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
@@ -263,37 +269,93 @@ impl ExpressionOps for Expression {
             Self::Extract(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Exists(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Regex(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::DateTime(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Coalesce(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Random(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Trim(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Interval(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::GroupingSets(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Filter(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsDistinct(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Exists(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Regex(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::DateTime(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Coalesce(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Random(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Trim(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Interval(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::GroupingSets(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Filter(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsDistinct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Position(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Method(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Struct(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Overlay(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Collate(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::AtTimeZone(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::MapAccess(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Tuple(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Wildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::QualifiedWildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::TypedString(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Subscript(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsCheck(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::BinaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Any(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::All(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::UnaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Convert(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::CeilFloor(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Method(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Struct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Overlay(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Collate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::AtTimeZone(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::MapAccess(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Tuple(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Wildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::QualifiedWildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::TypedString(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Subscript(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsCheck(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::BinaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Any(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::All(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::UnaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Convert(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::CeilFloor(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Substring(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-- 
2.43.0


From fd298e40ae920c122569047c3e69ba7f54a23377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:10 +0000
Subject: [PATCH 54/60] fix: arithmetic in a join condition keeps its operands
 in order and takes every pair of numbers

---
 .../expressions/arithmetic_expression.rs      | 124 ++----------------
 1 file changed, 12 insertions(+), 112 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..cd4f703 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -133,13 +133,9 @@ impl ArithmeticExpression {
             )),
         }
     }
-}
-
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
 
+    /// The result of the operation on two operands, whatever rows they come from
+    fn compute(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
             (Val::TinyInt(l), Val::TinyInt(r)) => {
@@ -748,6 +744,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.compute(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,112 +768,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.compute(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 4df9906ffb7701a75fc555fe487057279092c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:10 +0000
Subject: [PATCH 55/60] fix: integer + - * / that overflow are errors, and %
 works on every integer type

---
 src/types_db/value.rs | 134 +++++++++++++++++++++++++++++-------------
 1 file changed, 93 insertions(+), 41 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index a12dbad..6a1b88e 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1304,6 +1304,11 @@ impl Value {
     }
 }
 
+/// An integer result, or an error where it does not fit its type
+fn in_range<T>(result: Option<T>) -> Result<T, String> {
+    result.ok_or_else(|| "Integer out of range".to_string())
+}
+
 impl Type for Value {
     fn get_type_id(&self) -> TypeId {
         self.type_id_
@@ -1637,44 +1642,48 @@ impl Type for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
-            },
-            (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
-            },
+            (Val::Integer(a), Val::Integer(b)) => Ok(Value::new_with_type(
+                Val::Integer(in_range(a.checked_add(*b))?),
+                TypeId::Integer,
+            )),
+            (Val::BigInt(a), Val::BigInt(b)) => Ok(Value::new_with_type(
+                Val::BigInt(in_range(a.checked_add(*b))?),
+                TypeId::BigInt,
+            )),
             (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
+                Val::BigInt(in_range((*a as i64).checked_add(*b))?),
                 TypeId::BigInt,
             )),
             (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
+                Val::BigInt(in_range(a.checked_add(*b as i64))?),
                 TypeId::BigInt,
             )),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
-            (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
-            },
-            (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
-            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
+                Val::SmallInt(in_range(a.checked_add(*b))?),
+                TypeId::SmallInt,
+            )),
+            (Val::TinyInt(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
+                Val::TinyInt(in_range(a.checked_add(*b))?),
+                TypeId::TinyInt,
+            )),
             // Promote smaller types to larger ones
             (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
             (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(in_range((*a as i32).checked_add(*b))?),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(in_range(a.checked_add(*b as i32))?),
                 TypeId::Integer,
             )),
 
@@ -1685,9 +1694,10 @@ impl Type for Value {
             (Val::Timestamp(_), _) => Err("Cannot add Timestamp values".to_string()),
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
-            (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
-            },
+            (Val::Interval(a), Val::Interval(b)) => Ok(Value::new_with_type(
+                Val::Interval(in_range(a.checked_add(*b))?),
+                TypeId::Interval,
+            )),
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
                 TypeId::VarChar,
@@ -1728,22 +1738,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_sub(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_sub(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_sub(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_sub(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1771,7 +1793,7 @@ impl Type for Value {
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
                     Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
+                        Val::Interval(in_range(a_val.checked_sub(*b_val))?),
                         TypeId::Interval,
                     ))
                 } else {
@@ -1802,22 +1824,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_mul(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_mul(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_mul(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_mul(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1868,22 +1902,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(in_range(a.checked_div(b))?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(in_range(a.checked_div(b))?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(in_range(a.checked_div(b))?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(in_range(a.checked_div(b))?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1933,13 +1979,19 @@ impl Type for Value {
         if self.is_zero(other) {
             return Value::new(Val::Null);
         }
-        match (self.get_type_id(), other.get_type_id()) {
-            (TypeId::Integer, TypeId::Integer) => {
-                if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
-                } else {
-                    Value::new(Val::Null)
-                }
+        // The smallest integer leaves no remainder by -1, but its division overflows
+        match (&self.value_, &other.value_) {
+            (Val::Integer(a), Val::Integer(b)) => {
+                Value::new_with_type(Val::Integer(a.wrapping_rem(*b)), TypeId::Integer)
+            },
+            (Val::BigInt(a), Val::BigInt(b)) => {
+                Value::new_with_type(Val::BigInt(a.wrapping_rem(*b)), TypeId::BigInt)
+            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => {
+                Value::new_with_type(Val::SmallInt(a.wrapping_rem(*b)), TypeId::SmallInt)
+            },
+            (Val::TinyInt(a), Val::TinyInt(b)) => {
+                Value::new_with_type(Val::TinyInt(a.wrapping_rem(*b)), TypeId::TinyInt)
             },
             _ => Value::new(Val::Null),
         }
-- 
2.43.0


From bdd9fe79ec2953708999be1b00536ca646defbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 56/60] fix: values of one type have one total order, NaN last

---
 src/types_db/value.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 6a1b88e..ca240bf 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -2388,6 +2388,22 @@ impl PartialEq for Value {
 
 impl Eq for Value {}
 
+/// Orders two floats for sorting: every NaN comes after every number.
+fn order_f32(a: f32, b: f32) -> std::cmp::Ordering {
+    match a.partial_cmp(&b) {
+        Some(ordering) => ordering,
+        None => a.is_nan().cmp(&b.is_nan()),
+    }
+}
+
+/// Orders two doubles for sorting: every NaN comes after every number.
+fn order_f64(a: f64, b: f64) -> std::cmp::Ordering {
+    match a.partial_cmp(&b) {
+        Some(ordering) => ordering,
+        None => a.is_nan().cmp(&b.is_nan()),
+    }
+}
+
 impl PartialOrd for Value {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         // Ensure PartialOrd is consistent with our PartialEq.
@@ -2410,11 +2426,11 @@ impl PartialOrd for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Decimal(a), Val::Decimal(b)) => a.partial_cmp(b),
-            (Val::Float(a), Val::Float(b)) => a.partial_cmp(b),
-            (Val::Point(ax, ay), Val::Point(bx, by)) => match ax.partial_cmp(bx) {
-                Some(std::cmp::Ordering::Equal) => ay.partial_cmp(by),
-                non_eq => non_eq,
+            (Val::Decimal(a), Val::Decimal(b)) => Some(order_f64(*a, *b)),
+            (Val::Float(a), Val::Float(b)) => Some(order_f32(*a, *b)),
+            (Val::Point(ax, ay), Val::Point(bx, by)) => match order_f64(*ax, *bx) {
+                std::cmp::Ordering::Equal => Some(order_f64(*ay, *by)),
+                non_eq => Some(non_eq),
             },
             (Val::Struct, Val::Struct) => self.struct_data.partial_cmp(&other.struct_data),
             _ => self.value_.partial_cmp(&other.value_),
-- 
2.43.0


From 2b1dc26d171f75a5deb46b2e108c113dbb8be311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 57/60] fix: DISTINCT compares the rows themselves, not an
 ambiguous byte string

---
 .../execution/executors/distinct_executor.rs  | 83 +++----------------
 1 file changed, 12 insertions(+), 71 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..d895806 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -24,8 +24,8 @@
 //! │                        │                                    │
 //! │                        ▼                                    │
 //! │  ┌─────────────────────────────────────────────────────┐    │
-//! │  │ HashSet<Vec<u8>>                                    │    │
-//! │  │  └─ Stores serialized tuple bytes                   │    │
+//! │  │ HashSet<Vec<Value>>                                 │    │
+//! │  │  └─ Stores the values of each tuple                 │    │
 //! │  │  └─ O(1) duplicate detection                        │    │
 //! │  └─────────────────────────────────────────────────────┘    │
 //! │                        │                                    │
@@ -36,20 +36,12 @@
 //!
 //! ## Tuple Comparison
 //!
-//! Tuples are compared by serializing all column values to bytes:
-//!
-//! | Type      | Serialization                        |
-//! |-----------|--------------------------------------|
-//! | INTEGER   | Little-endian 4-byte representation  |
-//! | BIGINT    | Little-endian 8-byte representation  |
-//! | VARCHAR   | Length prefix + UTF-8 bytes          |
-//! | BOOLEAN   | Single byte (0 or 1)                 |
-//! | DECIMAL   | Little-endian 8-byte representation  |
-//! | NULL      | Special marker byte (0xFF)           |
+//! Tuples are compared column by column with the `Eq` and `Hash` of `Value`:
+//! two NULLs are the same, and a NULL differs from every other value.
 //!
 //! ## Memory Usage
 //!
-//! The executor stores one serialized copy of each unique tuple in memory.
+//! The executor stores one copy of each unique tuple in memory.
 //! For large result sets with high cardinality, this can consume significant
 //! memory.
 
@@ -65,7 +57,9 @@ use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::storage::table::tuple::Tuple;
+#[cfg(test)]
 use crate::types_db::value::Val;
+use crate::types_db::value::Value;
 
 /// Executor for removing duplicate tuples from query results.
 ///
@@ -104,8 +98,8 @@ pub struct DistinctExecutor {
     child_executor: Box<dyn AbstractExecutor>,
     /// Output schema (same as input schema).
     schema: Schema,
-    /// Set of serialized tuple bytes seen so far.
-    seen_tuples: HashSet<Vec<u8>>,
+    /// Values of the tuples seen so far.
+    seen_tuples: HashSet<Vec<Value>>,
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
 }
@@ -129,57 +123,6 @@ impl DistinctExecutor {
             initialized: false,
         }
     }
-
-    /// Serializes tuple values to a byte vector for duplicate detection.
-    ///
-    /// Creates a deterministic byte representation of all tuple values that
-    /// can be used as a hash set key. The serialization is designed to
-    /// ensure that equal tuples produce identical byte sequences.
-    ///
-    /// # Arguments
-    ///
-    /// * `tuple` - The tuple to serialize.
-    ///
-    /// # Returns
-    ///
-    /// A `Vec<u8>` containing the serialized tuple data.
-    ///
-    /// # Serialization Format
-    ///
-    /// Each value is serialized according to its type:
-    /// - **INTEGER**: 4 bytes, little-endian
-    /// - **BIGINT**: 8 bytes, little-endian
-    /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
-    /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
-    /// - **NULL**: 1 byte marker (0xFF)
-    /// - **Other**: Debug string with length prefix (fallback)
-    fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
-        let mut bytes = Vec::new();
-
-        for value in tuple.get_values() {
-            // Serialize each value to bytes for comparison
-            match value.get_val() {
-                Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::BigInt(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::VarLen(s) => {
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-                Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
-                Val::Null => bytes.push(0xFF), // Special marker for NULL
-                _ => {
-                    // For other types, convert to string and serialize
-                    let s = format!("{:?}", value);
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-            }
-        }
-
-        bytes
-    }
 }
 
 impl AbstractExecutor for DistinctExecutor {
@@ -239,13 +182,11 @@ impl AbstractExecutor for DistinctExecutor {
                 Some((tuple, rid)) => {
                     debug!("DistinctExecutor received tuple with RID {:?}", rid);
 
-                    // Serialize the tuple to bytes for comparison
-                    let tuple_bytes = self.serialize_tuple(&tuple);
+                    let values = tuple.get_values();
 
                     // Check if we've seen this tuple before
-                    if !self.seen_tuples.contains(&tuple_bytes) {
-                        // Insert the tuple bytes into our set
-                        self.seen_tuples.insert(tuple_bytes);
+                    if !self.seen_tuples.contains(&values) {
+                        self.seen_tuples.insert(values);
                         debug!("DistinctExecutor returning unique tuple with RID {:?}", rid);
                         return Ok(Some((tuple, rid)));
                     } else {
-- 
2.43.0


From 309c47e8c98c123c948d8e8d5d975c359e57fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 58/60] fix: an error in a WHERE condition is returned, not
 read as false

---
 .../execution/executors/filter_executor.rs    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sql/execution/executors/filter_executor.rs b/src/sql/execution/executors/filter_executor.rs
index 2cb7da8..f18d912 100644
--- a/src/sql/execution/executors/filter_executor.rs
+++ b/src/sql/execution/executors/filter_executor.rs
@@ -159,14 +159,15 @@ impl FilterExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if the tuple passes the filter, `false` otherwise.
-    fn apply_filter(&self, tuple: &Tuple) -> bool {
+    /// `true` if the tuple passes the filter, `false` otherwise, or the error
+    /// that evaluating the WHERE condition gave.
+    fn apply_filter(&self, tuple: &Tuple) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         let schema = self.child_executor.get_output_schema();
 
         match filter_expr.get_filter_type() {
             FilterType::Where => self.apply_where_filter(tuple, schema),
-            FilterType::Having => self.apply_having_filter(schema),
+            FilterType::Having => Ok(self.apply_having_filter(schema)),
         }
     }
 
@@ -182,8 +183,9 @@ impl FilterExecutor {
     ///
     /// # Returns
     ///
-    /// `true` if predicate evaluates to true, `false` otherwise (including errors).
-    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> bool {
+    /// `true` if predicate evaluates to true, `false` otherwise, or the error
+    /// that evaluating it gave.
+    fn apply_where_filter(&self, tuple: &Tuple, schema: &Schema) -> Result<bool, DBError> {
         let filter_expr = self.plan.get_filter_expression();
         debug!(
             "Evaluating WHERE filter on tuple with values: {:?}",
@@ -198,19 +200,19 @@ impl FilterExecutor {
                         b,
                         tuple.get_values()
                     );
-                    *b
+                    Ok(*b)
                 },
                 _ => {
                     error!(
                         "WHERE filter evaluation returned non-boolean value: {:?}",
                         value
                     );
-                    false
+                    Ok(false)
                 },
             },
             Err(e) => {
                 error!("Failed to evaluate WHERE filter: {}", e);
-                false
+                Err(DBError::Execution(e.to_string()))
             },
         }
     }
@@ -514,7 +516,7 @@ impl AbstractExecutor for FilterExecutor {
                 match self.child_executor.next()? {
                     Some((tuple, rid)) => {
                         debug!("Processing tuple with RID {:?}", rid);
-                        if self.apply_filter(&tuple) {
+                        if self.apply_filter(&tuple)? {
                             debug!("Found matching tuple with RID {:?}", rid);
                             return Ok(Some((tuple, rid)));
                         }
@@ -532,7 +534,7 @@ impl AbstractExecutor for FilterExecutor {
                     let rid = tuple.get_rid();
                     self.current_group_idx += 1;
 
-                    if self.apply_filter(tuple) {
+                    if self.apply_filter(tuple)? {
                         debug!("Found matching tuple for HAVING clause");
                         return Ok(Some((tuple.clone(), rid)));
                     }
-- 
2.43.0


From 96ca7e0338f4f736a89cc6370be614c00a364255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 59/60] fix: ORDER BY reports errors of its input and keys
 instead of dropping them

---
 src/sql/execution/executors/sort_executor.rs | 175 +++++++++----------
 1 file changed, 79 insertions(+), 96 deletions(-)

diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..f314568 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -99,13 +99,13 @@
 //! ## NULL Handling
 //!
 //! NULL values are handled according to SQL semantics:
-//! - NULLs are compared using `partial_cmp`
-//! - Incomparable values (both NULL) are treated as equal
-//! - Sort continues to next key if current key comparison is inconclusive
+//! - NULLs are equal to each other and smaller than every other value
+//! - Sort continues to next key if the current keys are equal
 
+use std::cmp::Ordering;
 use std::sync::Arc;
 
-use log::{debug, error, trace};
+use log::{debug, error};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
@@ -115,8 +115,9 @@ use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
-use crate::sql::execution::plans::sort_plan::{OrderDirection, SortNode};
+use crate::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// Executor for sorting query results according to `ORDER BY` specifications.
 ///
@@ -187,6 +188,9 @@ pub struct SortExecutor {
     /// Populated during `init()`, then read sequentially by `next()`.
     sorted_tuples: Vec<(Arc<Tuple>, RID)>,
 
+    /// What went wrong while collecting the tuples, until `next()` has reported it.
+    error: Option<DBError>,
+
     /// Current position in the sorted output vector.
     current_index: usize,
 
@@ -249,10 +253,73 @@ impl SortExecutor {
             plan,
             child_executor: Some(child_executor),
             sorted_tuples: Vec::new(),
+            error: None,
             current_index: 0,
             initialized: false,
         }
     }
+
+    /// Reads every tuple of the child and sorts them.
+    fn collect_sorted(&mut self) -> Result<(), DBError> {
+        let Some(child) = &mut self.child_executor else {
+            return Ok(());
+        };
+
+        debug!("Initializing child executor");
+        child.init();
+
+        let order_by_specs = self.plan.get_order_bys();
+        let schema = self.plan.get_output_schema();
+
+        // Evaluate the sort keys once per tuple: a key that cannot be evaluated is an error
+        let mut keyed = Vec::new();
+        while let Some((tuple, rid)) = child.next()? {
+            let keys = Self::sort_keys(order_by_specs, &tuple, schema)?;
+            keyed.push((keys, (tuple, rid)));
+        }
+        debug!("Collected {} tuples for sorting", keyed.len());
+
+        keyed
+            .sort_by(|(keys_a, _), (keys_b, _)| Self::compare_keys(order_by_specs, keys_a, keys_b));
+        debug!("Sorting completed");
+
+        self.sorted_tuples = keyed.into_iter().map(|(_, row)| row).collect();
+        Ok(())
+    }
+
+    /// Evaluates every order-by expression on a tuple.
+    fn sort_keys(
+        order_by_specs: &[OrderBySpec],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Vec<Value>, DBError> {
+        let mut keys = Vec::new();
+        for order_by_spec in order_by_specs {
+            match order_by_spec.get_expression().evaluate(tuple, schema) {
+                Ok(key) => keys.push(key),
+                Err(e) => return Err(DBError::Execution(e.to_string())),
+            }
+        }
+        Ok(keys)
+    }
+
+    /// Compares the keys of two tuples: the first key that differs decides.
+    fn compare_keys(
+        order_by_specs: &[OrderBySpec],
+        keys_a: &[Value],
+        keys_b: &[Value],
+    ) -> Ordering {
+        for (i, order_by_spec) in order_by_specs.iter().enumerate() {
+            let ordering = keys_a[i].partial_cmp(&keys_b[i]).unwrap_or(Ordering::Equal);
+            if ordering != Ordering::Equal {
+                return match order_by_spec.get_direction() {
+                    OrderDirection::Asc => ordering,
+                    OrderDirection::Desc => ordering.reverse(),
+                };
+            }
+        }
+        Ordering::Equal
+    }
 }
 
 impl AbstractExecutor for SortExecutor {
@@ -300,97 +367,9 @@ impl AbstractExecutor for SortExecutor {
         debug!("Initializing SortExecutor");
 
         // Initialize child executor
-        if let Some(child) = &mut self.child_executor {
-            debug!("Initializing child executor");
-            child.init();
-
-            // Collect all tuples
-            debug!("Starting to collect tuples from child executor");
-            let mut tuple_count = 0;
-            loop {
-                match child.next() {
-                    Ok(Some((tuple, rid))) => {
-                        self.sorted_tuples.push((tuple, rid));
-                        tuple_count += 1;
-                        if tuple_count % 100 == 0 {
-                            trace!("Collected {} tuples so far", tuple_count);
-                        }
-                    },
-                    Ok(None) => {
-                        // No more tuples
-                        break;
-                    },
-                    Err(e) => {
-                        error!("Error collecting tuples from child executor: {}", e);
-                        break;
-                    },
-                }
-            }
-            debug!("Collected {} tuples for sorting", self.sorted_tuples.len());
-
-            // Get references to order by specifications and schema
-            let order_by_specs = self.plan.get_order_bys().clone();
-            let schema = self.plan.get_output_schema().clone();
-
-            debug!(
-                "Starting to sort {} tuples with {} order by specifications",
-                self.sorted_tuples.len(),
-                order_by_specs.len()
-            );
-
-            // Sort tuples using the order by specifications with ASC/DESC support
-            self.sorted_tuples.sort_by(|(tuple_a, _), (tuple_b, _)| {
-                // Compare each order by expression in sequence
-                for order_by_spec in &order_by_specs {
-                    let expression = order_by_spec.get_expression();
-                    let direction = order_by_spec.get_direction();
-
-                    // Evaluate expressions for both tuples
-                    let val_a_result = expression.evaluate(tuple_a, &schema);
-                    let val_b_result = expression.evaluate(tuple_b, &schema);
-
-                    // Handle evaluation results
-                    if let (Ok(val_a), Ok(val_b)) = (&val_a_result, &val_b_result) {
-                        // Compare values
-                        match val_a.partial_cmp(val_b) {
-                            Some(ordering) if !ordering.is_eq() => {
-                                // Apply direction: if DESC, reverse the ordering
-                                let final_ordering = match direction {
-                                    OrderDirection::Asc => ordering,
-                                    OrderDirection::Desc => ordering.reverse(),
-                                };
-                                trace!("Comparing values {:?} vs {:?}, order: {:?}, direction: {:?}, result: {:?}",
-                                       val_a, val_b, ordering, direction, final_ordering);
-                                return final_ordering;
-                            }
-                            None => {
-                                debug!("Cannot compare values: {:?} and {:?}", val_a, val_b);
-                                // Continue to next expression if values can't be compared
-                                continue;
-                            }
-                            _ => {
-                                // Values are equal, continue to next expression
-                                continue;
-                            }
-                        }
-                    } else {
-                        // Handle evaluation errors
-                        if let Err(e) = &val_a_result {
-                            error!("Error evaluating left expression: {}", e);
-                        }
-                        if let Err(e) = &val_b_result {
-                            error!("Error evaluating right expression: {}", e);
-                        }
-                        // Continue to next expression if there was an error
-                        continue;
-                    }
-                }
-
-                // If all expressions are equal or had errors, return equal
-                std::cmp::Ordering::Equal
-            });
-
-            debug!("Sorting completed");
+        if let Err(e) = self.collect_sorted() {
+            error!("Error while sorting: {}", e);
+            self.error = Some(e);
         }
 
         self.current_index = 0;
@@ -435,6 +414,10 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
-- 
2.43.0


From b99bf04c60e1650e42c722587fbba9683a857a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 60/60] fix: TOP-N ranks rows by the value order and reports
 errors

---
 src/sql/execution/executors/topn_executor.rs | 61 +++++++++++---------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..bb6c4f9 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -14,7 +14,8 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
 /// Wrapper type for tuple and sort keys to implement custom ordering
@@ -27,12 +28,7 @@ struct TupleWithKeys {
 
 impl PartialEq for TupleWithKeys {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -46,16 +42,10 @@ impl Ord for TupleWithKeys {
     fn cmp(&self, other: &Self) -> Ordering {
         // Compare sort keys in ascending order for min-heap
         for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+            match a.partial_cmp(b) {
+                Some(Ordering::Less) => return Ordering::Less,
+                Some(Ordering::Greater) => return Ordering::Greater,
+                _ => continue, // Equal, check next key
             }
         }
         Ordering::Equal
@@ -69,6 +59,8 @@ pub struct TopNExecutor {
     child: Box<dyn AbstractExecutor>,
     // Store sorted tuples for output
     sorted_tuples: Vec<TupleWithKeys>,
+    // What went wrong while collecting the tuples, until next() has reported it
+    error: Option<DBError>,
     current_index: usize,
     initialized: bool,
 }
@@ -90,22 +82,24 @@ impl TopNExecutor {
             plan,
             child,
             sorted_tuples: Vec::new(),
+            error: None,
             current_index: 0,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
         let keys = self
             .plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|e| DBError::Execution(e.to_string()))?;
         trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+        Ok(keys)
     }
 }
 
@@ -128,7 +122,13 @@ impl AbstractExecutor for TopNExecutor {
         loop {
             match self.child.next() {
                 Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
+                    let sort_keys = match self.evaluate_sort_keys(&tuple) {
+                        Ok(sort_keys) => sort_keys,
+                        Err(e) => {
+                            self.error = Some(e);
+                            break;
+                        },
+                    };
                     debug!("Processing tuple with sort keys: {:?}", sort_keys);
 
                     let tuple_with_keys = TupleWithKeys {
@@ -157,15 +157,20 @@ impl AbstractExecutor for TopNExecutor {
                 },
                 Err(e) => {
                     debug!("Error processing child tuple: {}", e);
+                    self.error = Some(e);
                     break;
                 },
             }
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
+        // Convert heap to sorted vector (Reverse makes this descending order)
+        if self.error.is_none() {
+            self.sorted_tuples = heap
+                .into_sorted_vec()
+                .into_iter()
+                .map(|Reverse(t)| t)
+                .collect();
+        }
 
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
@@ -179,6 +184,10 @@ impl AbstractExecutor for TopNExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
             self.current_index += 1;
-- 
2.43.0

