From 07ff921351939b5614f2dcc249921cefd67d7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 01/14] verif: read-only inspection hooks behind
 cfg(generic_btree_verif)

---
 src/generic_impl/mod.rs  | 80 ++++++++++++++++++++++++++++++++++++++++
 src/generic_impl/ord.rs  | 14 +++++++
 src/generic_impl/rope.rs | 14 +++++++
 src/lib.rs               |  4 ++
 src/verif.rs             | 76 ++++++++++++++++++++++++++++++++++++++
 5 files changed, 188 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/generic_impl/mod.rs b/src/generic_impl/mod.rs
index 8272773..96e69f7 100644
--- a/src/generic_impl/mod.rs
+++ b/src/generic_impl/mod.rs
@@ -5,3 +5,83 @@ mod rope;
 pub use len_finder::{LengthFinder, UseLengthFinder};
 pub use ord::{OrdTreeMap, OrdTreeSet};
 pub use rope::Rope;
+
+/// A thin public handle on the rope's chunk buffer, compiled only with
+/// `--cfg generic_btree_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(generic_btree_verif)]
+pub mod verif_gap {
+    use super::gap_buffer::GapBuffer;
+    use crate::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
+    use std::ops::Range;
+
+    pub const CAP: usize = super::gap_buffer::MAX_STRING_SIZE;
+
+    #[derive(Debug, Clone)]
+    pub struct Gap(GapBuffer);
+
+    #[allow(clippy::new_without_default, clippy::len_without_is_empty, clippy::result_unit_err)]
+    impl Gap {
+        pub fn new() -> Self {
+            Gap(GapBuffer::new())
+        }
+        pub fn chunks(s: &str) -> Vec<Gap> {
+            GapBuffer::from_str(s).map(Gap).collect()
+        }
+        pub fn bytes(&self) -> Vec<u8> {
+            let (l, r) = self.0.as_bytes();
+            [l, r].concat()
+        }
+        pub fn to_vec(&self) -> Vec<u8> {
+            self.0.to_vec()
+        }
+        pub fn len(&self) -> usize {
+            self.0.len()
+        }
+        pub fn rle_len(&self) -> usize {
+            self.0.rle_len()
+        }
+        pub fn shift_at(&mut self, i: usize) {
+            self.0.shift_at(i)
+        }
+        pub fn push(&mut self, b: u8) -> Result<(), ()> {
+            self.0.push(b)
+        }
+        pub fn push_bytes(&mut self, b: &[u8]) -> Result<(), ()> {
+            self.0.push_bytes(b)
+        }
+        pub fn insert_bytes(&mut self, i: usize, b: &[u8]) -> Result<(), ()> {
+            self.0.insert_bytes(i, b)
+        }
+        pub fn insert_bytes_pair(&mut self, i: usize, p: (&[u8], &[u8])) -> Result<(), ()> {
+            self.0.insert_bytes_pair(i, p)
+        }
+        pub fn delete(&mut self, r: impl std::ops::RangeBounds<usize>) {
+            self.0.delete(r)
+        }
+        pub fn slice(&self, r: Range<usize>) -> Self {
+            Gap(self.0.slice(r))
+        }
+        pub fn slice_in_place(&mut self, r: Range<usize>) {
+            self.0.slice_(r)
+        }
+        pub fn split(&mut self, p: usize) -> Self {
+            Gap(self.0.split(p))
+        }
+        pub fn can_merge(&self, o: &Self) -> bool {
+            self.0.can_merge(&o.0)
+        }
+        pub fn merge_right(&mut self, o: &Self) {
+            self.0.merge_right(&o.0)
+        }
+        pub fn merge_left(&mut self, o: &Self) {
+            self.0.merge_left(&o.0)
+        }
+        pub fn try_insert(&mut self, p: usize, o: Self) -> Result<(), Self> {
+            self.0.try_insert(p, o.0).map_err(Gap)
+        }
+        pub fn can_remove(&self) -> bool {
+            self.0.can_remove()
+        }
+    }
+}
diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..051dc48 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -112,6 +112,20 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(generic_btree_verif)]
+impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTreeMap<Key, Value> {
+    /// Inspection hook, only with `--cfg generic_btree_verif`.
+    pub fn verif_dump(&self) -> crate::verif::VerifDump<Option<(Key, Key)>> {
+        self.tree.verif_dump()
+    }
+
+    /// The binding stored in a leaf.
+    pub fn verif_leaf(&self, leaf: crate::RawArenaIndex) -> &(Key, Value) {
+        &self.tree.leaf_nodes.get(leaf).unwrap().elem.0
+    }
+}
+
 impl<Key: Clone + Ord + Debug + 'static> OrdTreeSet<Key> {
     #[inline(always)]
     pub fn new() -> Self {
diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..83467d8 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -254,6 +254,20 @@ impl Rope {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(generic_btree_verif)]
+impl Rope {
+    /// Inspection hook, only with `--cfg generic_btree_verif`.
+    pub fn verif_dump(&self) -> crate::verif::VerifDump<isize> {
+        self.tree.verif_dump()
+    }
+
+    /// Lengths of the stored chunks, by leaf.
+    pub fn verif_leaf_len(&self, leaf: crate::RawArenaIndex) -> usize {
+        self.tree.leaf_nodes.get(leaf).unwrap().elem.len()
+    }
+}
+
 impl Default for Rope {
     fn default() -> Self {
         Self::new()
diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..9f9dc3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,6 +22,10 @@ pub mod iter;
 
 pub mod rle;
 
+#[allow(unexpected_cfgs)]
+#[cfg(generic_btree_verif)]
+pub mod verif;
+
 pub type HeapVec<T> = Vec<T>;
 
 const MAX_CHILDREN_NUM: usize = 12;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..a01ecec
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,76 @@
+//! Read-only inspection hooks, compiled only with `--cfg generic_btree_verif`.
+//!
+//! Nothing in here changes a tree; without the cfg none of it exists.
+use crate::{ArenaIndex, BTree, BTreeTrait, RawArenaIndex};
+
+/// One internal node as stored.
+#[derive(Debug, Clone)]
+pub struct VerifNode<C> {
+    pub index: RawArenaIndex,
+    pub parent: Option<ArenaIndex>,
+    pub parent_slot: u8,
+    pub children: Vec<(ArenaIndex, C)>,
+}
+
+/// One leaf node as stored.
+#[derive(Debug, Clone)]
+pub struct VerifLeaf {
+    pub index: RawArenaIndex,
+    pub parent: RawArenaIndex,
+}
+
+/// Everything both arenas hold.
+#[derive(Debug, Clone)]
+pub struct VerifDump<C> {
+    pub root: ArenaIndex,
+    pub root_cache: C,
+    pub capacity: usize,
+    pub nodes: Vec<VerifNode<C>>,
+    pub leaves: Vec<VerifLeaf>,
+}
+
+impl<B: BTreeTrait> BTree<B> {
+    pub fn verif_dump(&self) -> VerifDump<B::Cache> {
+        VerifDump {
+            root: self.root,
+            root_cache: self.root_cache.clone(),
+            capacity: crate::MAX_CHILDREN_NUM,
+            nodes: self
+                .in_nodes
+                .iter()
+                .map(|(index, node)| VerifNode {
+                    index,
+                    parent: node.parent,
+                    parent_slot: node.parent_slot,
+                    children: node
+                        .children
+                        .iter()
+                        .map(|x| (x.arena, x.cache.clone()))
+                        .collect(),
+                })
+                .collect(),
+            leaves: self
+                .leaf_nodes
+                .iter()
+                .map(|(index, leaf)| VerifLeaf {
+                    index,
+                    parent: leaf.parent,
+                })
+                .collect(),
+        }
+    }
+
+    /// The cache of the given children recomputed from scratch.
+    pub fn verif_calc(caches: &[(ArenaIndex, B::Cache)]) -> B::Cache {
+        let children: Vec<crate::Child<B>> = caches
+            .iter()
+            .map(|(a, c)| crate::Child {
+                arena: *a,
+                cache: c.clone(),
+            })
+            .collect();
+        let mut cache = Default::default();
+        B::calc_cache_internal(&mut cache, &children);
+        cache
+    }
+}
-- 
2.43.0


From cc941b54cbf5069b4f22cd4b9f55fa59d8b181a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 02/14] verif: one crate-level allow for the hook cfg

---
 src/generic_impl/mod.rs  | 1 -
 src/generic_impl/ord.rs  | 1 -
 src/generic_impl/rope.rs | 1 -
 src/lib.rs               | 2 +-
 4 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/generic_impl/mod.rs b/src/generic_impl/mod.rs
index 96e69f7..6c019bd 100644
--- a/src/generic_impl/mod.rs
+++ b/src/generic_impl/mod.rs
@@ -8,7 +8,6 @@ pub use rope::Rope;
 
 /// A thin public handle on the rope's chunk buffer, compiled only with
 /// `--cfg generic_btree_verif`.
-#[allow(unexpected_cfgs)]
 #[cfg(generic_btree_verif)]
 pub mod verif_gap {
     use super::gap_buffer::GapBuffer;
diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index 051dc48..7bd1fc3 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -112,7 +112,6 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     }
 }
 
-#[allow(unexpected_cfgs)]
 #[cfg(generic_btree_verif)]
 impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTreeMap<Key, Value> {
     /// Inspection hook, only with `--cfg generic_btree_verif`.
diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index 83467d8..9af68e2 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -254,7 +254,6 @@ impl Rope {
     }
 }
 
-#[allow(unexpected_cfgs)]
 #[cfg(generic_btree_verif)]
 impl Rope {
     /// Inspection hook, only with `--cfg generic_btree_verif`.
diff --git a/src/lib.rs b/src/lib.rs
index 9f9dc3a..72f6d64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // cfg(generic_btree_verif)
 
 use core::{fmt::Debug, ops::Range};
 use std::collections::{BTreeSet, VecDeque};
@@ -22,7 +23,6 @@ pub mod iter;
 
 pub mod rle;
 
-#[allow(unexpected_cfgs)]
 #[cfg(generic_btree_verif)]
 pub mod verif;
 
-- 
2.43.0


From 4a86fea7200ef2184e5fb3ba2a2ec1f3302ba7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 03/14] fix: OrdTreeMap::delete must not remove a neighbour
 when the key is absent

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index 7bd1fc3..1b8a1e2 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From c4ea3a8b875a0ddc43441ba977b1ab04d7bcc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 04/14] fix: dropping a Drain over nothing must not panic

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..b49c58d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // the range was empty, nothing to clean up
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From a6f0bb7b47258f157713b5659dddb50dd383f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 05/14] fix: prepend to an empty tree must update the root
 cache

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 72f6d64..9d5a7c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2530,6 +2530,7 @@ impl<B: BTreeTrait> BTree<B> {
             let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
             let ans = data.arena;
             parent.children.push(data).unwrap();
+            self.update_root_cache();
             return Cursor {
                 leaf: ans.unwrap().into(),
                 offset: 0,
-- 
2.43.0


From 63a25983b1c517341034adee17b19e9ccb97bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 06/14] fix: Rope::clear must forget the remembered cursor

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index 9af68e2..2f85c00 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -240,6 +240,7 @@ impl Rope {
     }
 
     pub fn clear(&mut self) {
+        self.cursor = None;
         self.tree.clear();
     }
 
-- 
2.43.0


From 633a4b61999d548d2d201ba8a59cde0c6eaa6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 07/14] fix: shift_path_by_one_offset must keep the remaining
 offset across nodes

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9d5a7c7..62e20c2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -840,7 +840,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From beaa9a3f0abaf73e651be7a54171bd627718c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 08/14] fix: insert_many_by_cursor must not move data in front
 of the cursor's own leaf

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62e20c2..8bf6bf5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -732,7 +732,8 @@ impl<B: BTreeTrait> BTree<B> {
             ..
         } = self.split_leaf_if_needed(cursor);
         let mut inserted = 0;
-        if let Some(left) = left_neighbour {
+        // the data only follows the left neighbour when the cursor is at the beginning of its leaf
+        if let Some(left) = left_neighbour.filter(|_| cursor.offset == 0) {
             let left_node = self.leaf_nodes.get_mut(left.0).unwrap();
             let mut i = 0;
             while i < data.len() && left_node.elem.can_merge(&data[i]) {
-- 
2.43.0


From 25c331b5ba83260c4e3454eb418eca9bcd830b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 09/14] fix: merge_adj must keep the order of the elements

---
 src/lib.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bf6bf5..7f82e82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2738,28 +2738,15 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    let mut merged: Vec<E> = Vec::with_capacity(data.len());
+    for elem in data.drain(..) {
+        match merged.last_mut() {
+            Some(last) if last.can_merge(&elem) => last.merge_right(&elem),
+            _ => merged.push(elem),
         }
-        i += 1;
     }
 
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+    *data = merged;
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From 693e9b42ba62fd1411c4131ba18c6d52df883c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 10/14] fix: inserting many elements into an empty tree must
 not panic and must leave room and a correct root cache

---
 src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f82e82..4acd86b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -720,6 +720,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -758,8 +759,10 @@ impl<B: BTreeTrait> BTree<B> {
     /// Returns (newly created subtree's root, height)
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
-        let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        // leave room for later insertions
+        let max_child_size = MAX_CHILDREN_NUM - 2;
+        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
+        for elem in data.into_iter().chunks(max_child_size).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -768,7 +771,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -785,13 +788,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
-            let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
+            for chunk in nodes.into_iter().chunks(max_child_size).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -805,10 +808,11 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
+                    let new_child = Child {
                         arena: ArenaIndex::Internal(child_idx),
                         cache,
                     };
+                    parent.children.push(new_child).unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From 34707b94d28191d766ccafdad3fc3c5eabbcf2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 11/14] fix: iter_range(..) on an empty tree must yield nothing
 instead of panicking

---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4acd86b..73d6de9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1729,16 +1729,19 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From e862bb15185a6e28dfc9db312f17e7ea55844e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 12/14] fix: Drain must refresh the caches above a zero-length
 leaf at its end

---
 src/iter.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index b49c58d..9caafb0 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,6 +1,5 @@
 use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
-    QueryResult,
+    delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath, QueryResult,
 };
 
 /// iterate node (not element) from the start path to the **inclusive** end path
@@ -58,17 +57,9 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
             }
         };
         let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
+            // after splitting, the end cursor is at the start of the first leaf
+            // that stays in the tree, which may have zero length
+            end_result.map(|x| x.leaf.into())
         };
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
-- 
2.43.0


From ef9b45398c494a80c2b1ee80dbfa9ae57046d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 13/14] fix: NodePath must hold the paths of trees of more than
 ten levels

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 73d6de9..a3be3cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,9 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+// The arenas index their slots with u32, so there are less than 2^32 leaves. A split leaves
+// at least 5 children in a node, hence 16 entries hold the path of any tree.
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0


From d73650778d6abc777313d9aabe4103e06ad2268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 14/14] fix: depth() of an empty tree must not panic

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a3be3cf..0470799 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2726,7 +2726,11 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(child) = node.children.first() else {
+                // only the root of an empty tree has no child
+                return depth;
+            };
+            index = child.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0

