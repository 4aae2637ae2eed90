From 78c5e8a51beb568c327290383e7ca411e6d2ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 01/14] fix: SyncShared::deref read its Arc as a Box, yielding
 the refcounts instead of the node

---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From e1d12983bd8d386763ec34b52ea8016c3d012c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 02/14] fix: OwnedIter::next_back stepped the wrong cursor and
 hung at a leaf boundary

---
 src/iter/owned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..69220bb 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -78,7 +78,7 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +87,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From cc15c81c6203452a6b49c08281305bcaa2a1deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 03/14] fix: load never validated its input order in debug mode

last_record was only updated inside the branch that requires it to be Some
already, so the documented debug validation of sorted, duplicate-free input
could never fire.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..9eeffd4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@ where
         }
 
         #[cfg(debug_assertions)]
-        let mut last_record = (0, None);
+        let mut last_record: (usize, Option<K>) = (0, None);
 
         let iter = iter.into_iter();
         let mut size = 0;
@@ -133,10 +133,13 @@ where
             {
                 if let (last_index, Some(last_key)) = last_record {
                     if last_key >= key {
-                        panic!("PalmTree::load: unordered key at index {}", last_index);
+                        panic!(
+                            "PalmTree::load: unordered key at index {}",
+                            last_index + 1
+                        );
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (size, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 6535ca60ad34df870a7127ef0ddc5ab8e0d15be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 04/14] fix: trees of non-thread-safe entries were Send and
 Sync

Pointer's Send and Sync impls looked only at the pointer kind and ignored the
pointee, so a StdPalmTree<u8, Rc<u8>> could be sent to another thread.
---
 src/pointer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..d9c68f5 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -168,8 +168,11 @@ pub(crate) struct Pointer<A, Kind: PointerKind> {
     kind: PhantomData<A>,
 }
 
-unsafe impl<A, Kind> Send for Pointer<A, Kind> where Kind: PointerKind + Send {}
-unsafe impl<A, Kind> Sync for Pointer<A, Kind> where Kind: PointerKind + Sync {}
+// A pointer is as thread safe as the smart pointer it stands for: `Box<A>`, `Rc<A>` (never) or `Arc<A>`.
+unsafe impl<A> Send for Pointer<A, Unique> where A: Send {}
+unsafe impl<A> Sync for Pointer<A, Unique> where A: Sync {}
+unsafe impl<A> Send for Pointer<A, SyncShared> where A: Send + Sync {}
+unsafe impl<A> Sync for Pointer<A, SyncShared> where A: Send + Sync {}
 
 impl<A, Kind: PointerKind> Pointer<A, Kind> {
     fn from_data(data: Kind) -> Self {
-- 
2.43.0


From af8dfd29985712d6695ee386f18556dbdfd813ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 05/14] fix: splitting a node of odd length lost its last entry
 and kept a moved one

The upper part holds len - half entries, not half: with an odd node size the
last entry was leaked and the middle one was owned by both halves.
---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From ff8d48bf1d0eccd10d12328d1dd5d2bcd0fde45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 06/14] fix: an excluded start bound could yield a key below it

When the highest key of the target leaf had been removed, higher_than_key
returned the leaf's remaining highest key although it is lower than the bound.
---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..761835d 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -230,8 +230,9 @@ where
             ptr.stack = path;
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
+            // As in `key_or_higher`, the leaf's highest key may be lower than `key`.
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                if ptr.key_unchecked() <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From 4a265694bc5a5b00df8ad9d32157b7f8d8008677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 07/14] fix: an included end bound absent from the tree yielded
 the next higher key

key_or_lower searched the leaf for the key or the next higher one, so
range(..=5) over 0, 2, 4, 6 included 6.
---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 761835d..dc2805a 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -248,8 +248,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If every key in the leaf is higher than `key`, we're one leaf ahead of the target key and step back.
+            unsafe {
+                if ptr.key_unchecked() > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From ef0c64d282b8b757a1501fd0c5f9ec9f39384b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 08/14] fix: insert_recursive tripped an assertion when the
 root had to grow

Branch::insert has already raised the separators along the right edge to the
new key when it reports Full, so the retry has to go through the same
algorithm: the cursor based one asserts the separators are still lower.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9eeffd4..e285c02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -429,7 +429,7 @@ where
                         let key2 = root_ref.highest().clone();
                         let child = std::mem::replace(root_ref, Branch::new(true));
                         root_ref.push_branch(key2, Pointer::new(child));
-                        self.insert(key, value)
+                        self.insert_recursive(key, value)
                     }
                 }
             }
-- 
2.43.0


From 098d9530cb0f136271c14781a1792fa0f284e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 09/14] fix: insert_recursive put a leaf into an emptied
 branch-bearing root

A tree emptied by removals keeps its root, and that root may hold branches;
pushing a leaf into it made every later walk read the leaf as a branch.
---
 src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e285c02..4295cbb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,14 +406,13 @@ where
             let root_ref = Pointer::make_mut(root);
             // Special case: if a tree has size 0 but there is a root, it's because
             // we removed the last entry and the root has been left allocated.
-            // Tree walking algos assume the tree has no empty nodes, so we have to
-            // handle this as a special case.
+            // Tree walking algos assume the tree has no empty nodes, and the emptied
+            // root may be one that bears branches, so we start over with a fresh root.
             if len == 0 {
                 // Make sure the delete trimmed the tree properly.
                 debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
 
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                *root_ref = Branch::unit(Pointer::new(Leaf::unit(key, value)));
                 self.size = 1;
                 None
             } else {
-- 
2.43.0


From d05f7a5fcdfdc4095642e89475f7d314d430640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 10/14] fix: removing a branch's last leaf left stale
 separators in its ancestors

Keys between the branch's new last separator and the stale one were routed to
a branch that doesn't cover them: entry() then took them for new maxima and
inserted them out of order, and ranges starting or ending there were wrong.
---
 src/search.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index dc2805a..bb027e9 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -439,6 +439,20 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    // If we've removed the last child, every ancestor up to the first one in which this
+                    // isn't the last child needs to know about the new highest key, or keys between the
+                    // two would be routed to a branch that doesn't cover them.
+                    if index == branch.len() {
+                        let highest = branch.highest();
+                        while let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = highest.clone();
+                            if index + 1 < parent.len() {
+                                break;
+                            }
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From c38bdd134fd7b2fd69ae3a6d03b0b10f5fb0cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 11/14] fix: changing a tree changed its clones when their
 nodes were shared

With the Shared and SyncShared pointer kinds a clone shares the root. Removals,
entry(), iter_mut(), range_mut() and into_iter() wrote through cursors into the
shared nodes; they now make the root their own first, as insert does.
---
 src/entry.rs         |  9 +++++++--
 src/iter/mut_iter.rs |  8 +++++++-
 src/iter/owned.rs    | 16 ++++++++++-----
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..d20b272 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,14 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            // The cursor is going to be written through, so the nodes it
+            // points at can't be shared with another tree.
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..6126c8b 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,14 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // The iterator is going to hand out mutable references to the tree's
+        // values, so its nodes can't be shared with another tree.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 69220bb..3741824 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,13 +20,19 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // The iterator is going to move entries out of the tree's nodes,
+            // so they can't be shared with another tree.
+            let root = Pointer::make_mut(root);
             Self {
-                left: PathedPointer::lowest(&root),
-                right: PathedPointer::highest(&root),
+                left: PathedPointer::lowest(root),
+                right: PathedPointer::highest(root),
                 tree,
                 remaining,
             }
diff --git a/src/lib.rs b/src/lib.rs
index 4295cbb..38c8515 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -232,7 +232,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -245,12 +248,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -267,9 +274,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -277,21 +287,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -321,7 +339,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -332,7 +353,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -683,6 +707,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -695,6 +720,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 682704faa832247eeaa3dc1a09c447386755f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 12/14] fix: over-aligned entries were read at the wrong
 address in shared trees

Erasing a node pointer's type went through Rc/Arc::into_raw and from_raw with
different pointee types, which computes the header offset from the alignment
of the wrong type.
---
 src/pointer.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d9c68f5..62a00d5 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -186,16 +186,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -203,8 +193,13 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        // Moving the untyped data over never leaves the smart pointer's own representation. Going
+        // through a raw pointer would: it's offset from the allocation by the alignment of the pointee,
+        // which isn't known when the type has been erased.
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From f3f6fa8d8752e59c33d9dff7b00827f7c1130ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 13/14] fix: node sizes of three and less were accepted by
 TreeConfig

The bound asked for the comparison with 3 to exist, not to come out true, and
smaller nodes can't be split.
---
 src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b2de38b..be2ba50 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,11 +1,11 @@
 use crate::{branch::node::Node, PointerKind};
 use generic_array::ArrayLength;
 use std::marker::PhantomData;
-use typenum::{IsGreater, U3, U64};
+use typenum::{IsGreater, True, U3, U64};
 
 pub trait TreeConfig<K, V> {
-    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3>;
-    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3>;
+    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3, Output = True>;
+    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3, Output = True>;
     type PointerKind: PointerKind;
 }
 
-- 
2.43.0


From 451c47fde7e9177fa0ed16d034f08ab2325af047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 14/14] fix: the tree_debug feature did not compile

PalmTree's Debug impl asks for less than Branch's did.
---
 src/branch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 3a43d51..ff052e8 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -474,8 +474,8 @@ where
 
 impl<K, V, C> Branch<K, V, C>
 where
-    K: Clone + Debug,
-    V: Clone + Debug,
+    K: Debug,
+    V: Debug,
     C: TreeConfig<K, V>,
 {
     fn tree_fmt(&self, f: &mut Formatter<'_>, level: usize) -> Result<(), Error> {
@@ -503,8 +503,8 @@ where
 
 impl<K, V, C> Debug for Branch<K, V, C>
 where
-    K: Clone + Debug,
-    V: Clone + Debug,
+    K: Debug,
+    V: Debug,
     C: TreeConfig<K, V>,
 {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), Error> {
-- 
2.43.0

