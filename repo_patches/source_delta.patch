From a457ce9e7a0a2e23e991496c5563f7ed37ed00d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 01/20] fix: SyncShared must dereference its pointer as an Arc,
 not a Box

Every access to a SyncPalmTree read the reference counts as node data.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From 118f1e3f1ba0fe381d1578eee88e220d8f49cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 02/20] fix: splitting a node of odd length must not lose or
 duplicate an entry

The right half stole length - half entries but recorded only half of them,
and the left half kept length - half, so with an odd node capacity the
middle entry ended up owned twice and the last one was lost.
---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 06e5bf8dd141703d839a7f9f515ed31f7273bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 03/20] fix: OwnedIter::next_back must step its own cursor and
 stop when drained

It stepped the front cursor instead of the back one, so taking more than
one leaf's worth of entries from the back never terminated, and stepping
back into a leaf drained from the front underflowed its length.
---
 src/iter/owned.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..bee84ff 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -49,7 +49,8 @@ where
     type Item = (K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        // With nothing remaining, every leaf is drained and there's nowhere to step to.
+        if self.remaining == 0 || self.tree.is_none() {
             return None;
         }
         loop {
@@ -78,7 +79,8 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        // With nothing remaining, every leaf is drained and there's nowhere to step to.
+        if self.remaining == 0 || self.tree.is_none() {
             return None;
         }
         loop {
@@ -87,7 +89,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From 357708d8f76b977dc96c8e1013ed1c4c936453b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 04/20] fix: PalmTree::load must actually validate its input in
 debug builds

The last key was only recorded if one had been recorded before, so the
documented check for unordered or duplicate keys never ran.
---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..a3d3330 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@ where
         }
 
         #[cfg(debug_assertions)]
-        let mut last_record = (0, None);
+        let mut last_record: (usize, Option<K>) = (0, None);
 
         let iter = iter.into_iter();
         let mut size = 0;
@@ -131,12 +131,13 @@ where
         for (key, value) in iter {
             #[cfg(debug_assertions)]
             {
-                if let (last_index, Some(last_key)) = last_record {
+                let (index, last_key) = last_record;
+                if let Some(last_key) = last_key {
                     if last_key >= key {
-                        panic!("PalmTree::load: unordered key at index {}", last_index);
+                        panic!("PalmTree::load: unordered key at index {}", index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (index + 1, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 5868eb48cb2e4960f59a075a0d78971f484f2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 05/20] fix: insert_recursive into an emptied tree must not
 reuse its root

The root of a tree which has been several levels deep still bears branches
when its last entry is removed; pushing a leaf into it confuses the two.
---
 src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a3d3330..8a9bf24 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -401,20 +401,17 @@ where
     {
         let len = self.size;
         if let Some(ref mut root) = self.root {
-            let root_ref = Pointer::make_mut(root);
             // Special case: if a tree has size 0 but there is a root, it's because
             // we removed the last entry and the root has been left allocated.
             // Tree walking algos assume the tree has no empty nodes, so we have to
-            // handle this as a special case.
+            // handle this as a special case. The root may have been bearing branches,
+            // so it can't be reused to hold a leaf.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
-                debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
-
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));
                 self.size = 1;
                 None
             } else {
+                let root_ref = Pointer::make_mut(root);
                 match root_ref.insert(key, value) {
                     InsertResult::Added => {
                         self.size += 1;
-- 
2.43.0


From cb92722e1e4caf3ab9f7be126c5f4b7b6ce56b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 06/20] fix: an excluded start bound must not yield a lower key

After the highest key of a leaf has been removed, searching for it leads to
a lower key in the same leaf, which has to be stepped over too.
---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..2bb700b 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -231,7 +231,8 @@ where
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                // As in `key_or_higher`, the highest key in this leaf might be lower than `key`.
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From 26061c5ff09786ada2dd12d3a469fc32d8e04ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 07/20] fix: an included end bound must not yield a higher key

If the bound itself isn't in the tree, the range ended at the next higher
key instead of the next lower one.
---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 2bb700b..98ff543 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -248,8 +248,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If we've found a value higher than key, we're one branch ahead of the target key and step back.
+            unsafe {
+                if leaf.keys().get_unchecked(ptr.index) > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From 18234311b39c6fe7efdfd2dfa70375c867021678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 08/20] fix: removing a branch's highest child must lower the
 keys leading to it

Otherwise a search for a key between the branch's new highest key and its
parent's old one fails inside the branch and is taken to be past the end of
the tree: ranges starting or ending there were empty or unbounded, and
inserting such a key appended it at the wrong end of the tree.
---
 src/search.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index 98ff543..921ded1 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -439,6 +439,20 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    if index == branch.len() {
+                        // We've removed the branch's highest child, so the keys leading to
+                        // this branch must come down to its new highest key, or a search for
+                        // a key in between would find no child to descend into.
+                        let highest = branch.highest();
+                        while let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = highest.clone();
+                            if index + 1 < parent.len() {
+                                break;
+                            }
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 2ea48c255a8e53b6768900b40636651c2700b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 09/20] fix: type erasing a pointer must not depend on the
 alignment of its target

Nodes are stored as pointers to (), and the offset of the data in an Rc or
Arc depends on its alignment, so over-aligned keys or values were read from
the wrong address in shared trees.
---
 src/pointer.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..053456a 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -183,16 +183,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -200,8 +190,12 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        // The pointer kind is untyped already. Going through `into_raw` and `from_raw` would
+        // offset a reference counted pointer by the alignment of `A` one way and `B` the other.
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From 907b0d7bfca37d805bb410d50116997b140cea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 10/20] fix: allow trees of more than 16 levels

With the smallest allowed nodes, a tree gets there in less than 400,000
insertions in ascending order, and every operation on it panics.
---
 src/search.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index 921ded1..6b7f120 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,9 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// FIXME hardcoded max height of 32. With the smallest allowed nodes, which split into halves of
+// two, a tree needs more than 2^33 insertions to get there.
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 25710ada390807122288758b8bb6bdf0a28c785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 11/20] fix: a tree may only cross threads if its contents may

Pointer was Send and Sync regardless of what it points to, so safe code
could move an Rc or share a Cell between threads by way of a tree.
---
 src/pointer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 053456a..113392b 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -168,8 +168,12 @@ pub(crate) struct Pointer<A, Kind: PointerKind> {
     kind: PhantomData<A>,
 }
 
-unsafe impl<A, Kind> Send for Pointer<A, Kind> where Kind: PointerKind + Send {}
-unsafe impl<A, Kind> Sync for Pointer<A, Kind> where Kind: PointerKind + Sync {}
+// The kinds are untyped, so it's up to the pointer to impose the requirements of
+// the smart pointer it stands for on its target.
+unsafe impl<A: Send> Send for Pointer<A, Unique> {}
+unsafe impl<A: Sync> Sync for Pointer<A, Unique> {}
+unsafe impl<A: Send + Sync> Send for Pointer<A, SyncShared> {}
+unsafe impl<A: Send + Sync> Sync for Pointer<A, SyncShared> {}
 
 impl<A, Kind: PointerKind> Pointer<A, Kind> {
     fn from_data(data: Kind) -> Self {
-- 
2.43.0


From f8280d2d6893cb01a489017ce82bcb6cf5aaf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 12/20] fix: modifying a shared tree must not modify its clones

Entries, removals, mutable iterators and consuming iterators edit nodes in
place through a cursor, without making them unique first, so with Shared or
SyncShared nodes every clone of the tree changed too (and kept a length
which no longer matched its contents). Make the root unique first, as
get_mut does. This needs values to be Clone, as they already had to be for
anything to get into a tree.
---
 src/entry.rs         |  7 ++++++-
 src/iter/mut_iter.rs |  7 ++++++-
 src/iter/owned.rs    | 11 +++++++---
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..e3fc948 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,8 +20,13 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
+            // The entry's cursor modifies nodes in place, so they must be ours alone.
+            Pointer::make_mut(root);
             match PathedPointer::exact_key(root, &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..55f1e14 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,13 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // The iterator hands out mutable references into nodes, so they must be ours alone.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index bee84ff..8232802 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,10 +20,15 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // The iterator drains leaves in place, so they must be ours alone.
+            Pointer::make_mut(root);
             Self {
                 left: PathedPointer::lowest(&root),
                 right: PathedPointer::highest(&root),
diff --git a/src/lib.rs b/src/lib.rs
index 8a9bf24..3e401b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -230,7 +230,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -243,12 +246,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -265,9 +272,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -275,21 +285,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -319,7 +337,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -330,7 +351,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -679,6 +703,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -691,6 +716,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From b5a1aac57206239aff93a9523e26e2a2619a5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 13/20] fix: insert_recursive must not raise branch keys when
 it inserts nothing

When the rightmost leaf and its branch were both full, the keys leading there
had already been raised to the new key. The retry after growing the tree then
tripped push_last's debug assertion that the new key is higher than them all.
---
 src/branch.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 3a43d51..25e0d1d 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -441,10 +441,14 @@ where
             let end_index = self.len() - 1;
             let (key, value) = {
                 if self.has_branches() {
-                    self.keys_mut()[end_index] = key.clone();
+                    let highest = key.clone();
                     match self.get_branch_mut(end_index).insert(key, value) {
+                        // Nothing was inserted, so the keys must stay as they are.
                         InsertResult::Full(key, value) => (key, value),
-                        result => return result,
+                        result => {
+                            self.keys_mut()[end_index] = highest;
+                            return result;
+                        }
                     }
                 } else {
                     let leaf = self.get_leaf_mut(end_index);
-- 
2.43.0


From 8921ab8b13722eb6505b9627ec3192c63219d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 14/20] fix: a panic while splitting must not detach part of
 the tree

---
 src/branch.rs | 16 +++++++++++++---
 src/leaf.rs   |  5 +++++
 src/lib.rs    | 10 ++++------
 src/search.rs | 30 ++++++++++++++----------------
 4 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 25e0d1d..3eb9aaa 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -108,6 +108,12 @@ where
         &self.keys()[self.len() - 1]
     }
 
+    /// The key that will be the left half's highest when this branch is split.
+    #[inline(always)]
+    pub(crate) fn split_key(&self) -> &K {
+        &self.keys()[self.len() / 2 - 1]
+    }
+
     #[inline(always)]
     pub(crate) fn has_leaves(&self) -> bool {
         !self.has_branches()
@@ -426,14 +432,17 @@ where
                 // Split the child branch and retry insertion from here.
                 // FIXME should determine which of the split branches to insert into instead of rechecking from the parent branch.
                 // Same for leaf splitting below, and splitting in >max case further below.
+                // Cloning a key can panic, so that must happen before the child is detached.
+                let left_highest = self.get_branch(index).split_key().clone();
                 let (removed_key, removed_branch) = self.remove_branch(index);
                 let (left, right) = Self::split(removed_branch);
-                self.insert_branch_pair(index, left.highest().clone(), left, removed_key, right);
+                self.insert_branch_pair(index, left_highest, left, removed_key, right);
                 self.insert(key, value)
             } else {
+                let left_highest = self.get_leaf(index).split_key().clone();
                 let (removed_key, removed_leaf) = self.remove_leaf(index);
                 let (left, right) = Leaf::split(removed_leaf);
-                self.insert_leaf_pair(index, left.highest().clone(), left, removed_key, right);
+                self.insert_leaf_pair(index, left_highest, left, removed_key, right);
                 self.insert(key, value)
             }
         } else {
@@ -463,9 +472,10 @@ where
             if self.is_full() {
                 InsertResult::Full(key, value)
             } else if self.has_branches() {
+                let left_highest = self.get_branch(end_index).split_key().clone();
                 let (removed_key, removed_branch) = self.remove_last_branch();
                 let (left, right) = Self::split(removed_branch);
-                self.push_branch_pair(left.highest().clone(), left, removed_key, right);
+                self.push_branch_pair(left_highest, left, removed_key, right);
                 self.insert(key, value)
             } else {
                 let leaf = Pointer::new(Leaf::unit(key.clone(), value));
diff --git a/src/leaf.rs b/src/leaf.rs
index ba3a21f..c8d9e32 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -75,6 +75,11 @@ where
         &self.keys()[self.len() - 1]
     }
 
+    /// The key that will be the left half's highest when this leaf is split.
+    pub(crate) fn split_key(&self) -> &K {
+        &self.keys()[self.len() / 2 - 1]
+    }
+
     pub(crate) fn keys(&self) -> &[K] {
         unsafe { self.keys.deref(self.length) }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 3e401b7..b8626c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -409,14 +409,12 @@ where
     where
         V: Clone,
     {
+        // Cloning a key can panic, so that must happen before the old root is detached.
+        let left_highest = root.split_key().clone();
+        let right_highest = root.highest().clone();
         let old_root = std::mem::replace(root, Branch::new(true).into());
         let (left, right) = Branch::split(old_root);
-        Pointer::make_mut(root).push_branch_pair(
-            left.highest().clone(),
-            left,
-            right.highest().clone(),
-            right,
-        );
+        Pointer::make_mut(root).push_branch_pair(left_highest, left, right_highest, right);
     }
 
     pub fn insert_recursive(&mut self, key: K, value: V) -> Option<V>
diff --git a/src/search.rs b/src/search.rs
index 6b7f120..28d914b 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -485,39 +485,37 @@ where
                     let branch = &mut *(branch as *mut Branch<K, V, C>);
                     let index = index as usize;
                     if !branch.is_full() {
+                        // Comparing and cloning keys can panic, so that must happen while
+                        // the child we're going to split is still attached.
                         let choose_index = if branch.has_branches() {
-                            let (removed_key, removed_branch) = branch.remove_branch(index);
-                            let (left, right) = Branch::split(removed_branch);
-                            let left_highest = left.highest();
-                            let choose_index = if &key <= left_highest {
+                            let left_highest =
+                                branch.get_branch_unchecked(index).split_key().clone();
+                            let choose_index = if key <= left_highest {
                                 index
                             } else {
                                 index + 1
                             };
+                            let (removed_key, removed_branch) = branch.remove_branch(index);
+                            let (left, right) = Branch::split(removed_branch);
                             branch.insert_branch_pair(
                                 index,
-                                left_highest.clone(),
+                                left_highest,
                                 left,
                                 removed_key,
                                 right,
                             );
                             choose_index
                         } else {
-                            let (removed_key, removed_leaf) = branch.remove_leaf(index);
-                            let (left, right) = Leaf::split(removed_leaf);
-                            let left_highest = left.highest();
-                            let choose_index = if &key <= left_highest {
+                            let left_highest =
+                                branch.get_leaf_unchecked(index).split_key().clone();
+                            let choose_index = if key <= left_highest {
                                 index
                             } else {
                                 index + 1
                             };
-                            branch.insert_leaf_pair(
-                                index,
-                                left_highest.clone(),
-                                left,
-                                removed_key,
-                                right,
-                            );
+                            let (removed_key, removed_leaf) = branch.remove_leaf(index);
+                            let (left, right) = Leaf::split(removed_leaf);
+                            branch.insert_leaf_pair(index, left_highest, left, removed_key, right);
                             choose_index
                         };
                         // We're going to walk down either the left or the right hand branch of our split.
-- 
2.43.0


From 9577e180a6974c9d5a3d2baa6f10856f8449e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 15/20] fix: a panic while appending must not leave a size
 without a root

---
 src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8626c4..54cbf60 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,9 +369,9 @@ where
     where
         V: Clone,
     {
-        let root = self.root.take();
-        if root.is_some() {
-            let left = OwnedIter::new(root, self.size);
+        if self.root.is_some() {
+            // A panic while merging leaves us empty, so the size must go with the root.
+            let left = std::mem::take(self).into_iter();
             let right = other.into_iter();
             *self = Self::load(Self::merge_left_from(left, right));
         } else {
@@ -383,9 +383,9 @@ where
     where
         V: Clone,
     {
-        let root = self.root.take();
-        if root.is_some() {
-            let left = OwnedIter::new(root, self.size);
+        if self.root.is_some() {
+            // A panic while merging leaves us empty, so the size must go with the root.
+            let left = std::mem::take(self).into_iter();
             let right = other.into_iter();
             *self = Self::load(Self::merge_right_from(left, right));
         } else {
@@ -658,12 +658,12 @@ where
     C2: TreeConfig<K, V>,
 {
     fn add_assign(&mut self, other: &'a PalmTree<K, V, C2>) {
-        let root = self.root.take();
-        if root.is_none() {
+        if self.root.is_none() {
             *self = Self::load(other.iter().map(|(k, v)| (*k, *v)));
         } else {
+            // A panic while merging leaves us empty, so the size must go with the root.
             *self = Self::load(Self::merge_right_from(
-                OwnedIter::new(root, self.size),
+                std::mem::take(self).into_iter(),
                 other.iter().map(|(k, v)| (*k, *v)),
             ))
         }
-- 
2.43.0


From 0ce3e1a01ab1adaf6ae6166ad0f7a820e92e350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 16/20] fix: a panic while removing must not leave keys or size
 behind

---
 src/entry.rs  |  3 ++-
 src/lib.rs    |  9 ++++++---
 src/search.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index e3fc948..5ea1a71 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -155,8 +155,9 @@ where
     }
 
     pub fn remove_entry(self) -> (K, V) {
+        let removed = unsafe { self.cursor.remove() };
         self.tree.size -= 1;
-        unsafe { self.cursor.remove() }
+        removed
     }
 
     pub fn remove(self) -> V {
diff --git a/src/lib.rs b/src/lib.rs
index 54cbf60..ee24a0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -278,8 +278,9 @@ where
     {
         let root = Pointer::make_mut(self.root.as_mut()?);
         if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
+            let removed = unsafe { path.remove() };
             self.size -= 1;
-            Some(unsafe { path.remove() })
+            Some(removed)
         } else {
             None
         }
@@ -294,8 +295,9 @@ where
         } else {
             let root = Pointer::make_mut(self.root.as_mut()?);
             let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
+            let removed = unsafe { path.remove() };
             self.size -= 1;
-            Some(unsafe { path.remove() })
+            Some(removed)
         }
     }
 
@@ -308,8 +310,9 @@ where
         } else {
             let root = Pointer::make_mut(self.root.as_mut()?);
             let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
+            let removed = unsafe { path.remove() };
             self.size -= 1;
-            Some(unsafe { path.remove() })
+            Some(removed)
         }
     }
 
diff --git a/src/search.rs b/src/search.rs
index 28d914b..3734c6c 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -428,6 +428,7 @@ where
     pub(crate) unsafe fn remove(mut self) -> (K, V) {
         // TODO need a strategy for rebalancing after remove
         let index = self.index;
+        let mut lowered = self.lowered_keys();
         let leaf = self.deref_mut_leaf().unwrap();
         let (key, value) = leaf.remove_unchecked(index);
         if leaf.is_empty() {
@@ -440,18 +441,10 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
-                    if index == branch.len() {
-                        // We've removed the branch's highest child, so the keys leading to
-                        // this branch must come down to its new highest key, or a search for
-                        // a key in between would find no child to descend into.
-                        let highest = branch.highest();
-                        while let Some((parent, index)) = self.stack.pop() {
+                    while let Some(highest) = lowered.pop() {
+                        if let Some((parent, index)) = self.stack.pop() {
                             let parent = &mut *(parent as *mut Branch<K, V, C>);
-                            let index = index as usize;
-                            parent.keys_mut()[index] = highest.clone();
-                            if index + 1 < parent.len() {
-                                break;
-                            }
+                            parent.keys_mut()[index as usize] = highest;
                         }
                     }
                     break;
@@ -462,6 +455,36 @@ where
         (key, value)
     }
 
+    /// Find the keys which must change when removing the entry being pointed at.
+    ///
+    /// If that removes a branch's highest child, the keys leading to the branch must come
+    /// down to its new highest key, or a search for a key in between would find no child to
+    /// descend into. There is one key for each of those levels, which all have to be cloned
+    /// before anything is removed, because cloning a key can panic.
+    unsafe fn lowered_keys(&self) -> Vec<K> {
+        let mut lowered = Vec::new();
+        if self.deref_leaf_unchecked().len() == 1 {
+            let mut levels = self
+                .stack
+                .iter()
+                .rev()
+                .map(|(branch, index)| (&**branch, *index as usize));
+            // The lowest branch which keeps a child.
+            if let Some((branch, index)) = levels.find(|(branch, _)| branch.len() > 1) {
+                if index > 0 && index + 1 == branch.len() {
+                    let highest = &branch.keys()[index - 1];
+                    for (parent, index) in levels {
+                        lowered.push(highest.clone());
+                        if index + 1 < parent.len() {
+                            break;
+                        }
+                    }
+                }
+            }
+        }
+        lowered
+    }
+
     /// Insert a key at the index being pointed at.
     ///
     /// You're responsible for ensuring that something is being pointed at,
-- 
2.43.0


From 2fb6b930445177a7a1c6346dee5b7f43d2892fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 17/20] fix: a panic while appending an entry must not leave
 keys half raised

---
 src/search.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 3734c6c..a51f634 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -598,10 +598,12 @@ where
     {
         let mut branch = root;
         let mut index;
+        // Cloning a key can panic, so they must all be cloned before any of them is stored.
+        let mut raised = Vec::new();
         loop {
             index = branch.len() - 1;
             debug_assert!(branch.highest() < &key);
-            branch.keys_mut()[index] = key.clone();
+            raised.push(key.clone());
             self.stack.push((branch, index as isize));
             if branch.has_branches() {
                 branch = branch.get_branch_mut(index);
@@ -609,6 +611,10 @@ where
                 break;
             }
         }
+        for ((branch, index), key) in self.stack.iter().zip(raised) {
+            let branch = &mut *(*branch as *mut Branch<K, V, C>);
+            branch.keys_mut()[*index as usize] = key;
+        }
         self.leaf = branch.get_leaf(index);
         self.index = (*self.leaf).len();
         self.insert(key, value)
-- 
2.43.0


From d48cd485ae40ce847212b898c1ec5e906103209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 18/20] fix: an inconsistent Ord must not make IterMut hand out
 a value twice

---
 src/iter/mut_iter.rs | 14 ++++++++------
 src/search.rs        |  8 ++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index 55f1e14..17f3414 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -99,9 +99,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let left_key = self.left_key()?;
-        let right_key = self.right_key()?;
-        // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
+        self.right_key()?;
+        // If left is past right, we're done. Comparing their keys isn't good enough: should an
+        // inconsistent `Ord` miss that they've met, we'd hand out the same values twice.
+        let cmp = self.left.cmp_position(&self.right);
         if cmp == Ordering::Greater {
             self.left.clear();
             self.right.clear();
@@ -125,10 +126,11 @@ where
     C: 'a + TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let left_key = self.left_key()?;
+        self.left_key()?;
         let right_key = self.right_key()?;
-        // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
+        // If left is past right, we're done. Comparing their keys isn't good enough: should an
+        // inconsistent `Ord` miss that they've met, we'd hand out the same values twice.
+        let cmp = self.left.cmp_position(&self.right);
         if cmp == Ordering::Greater {
             self.left.clear();
             self.right.clear();
diff --git a/src/search.rs b/src/search.rs
index a51f634..0962175 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -1,6 +1,7 @@
 use crate::{arch::prefetch, branch::Branch, config::TreeConfig, leaf::Leaf};
 use arrayvec::ArrayVec;
 use std::{
+    cmp::Ordering,
     fmt::{Debug, Error, Formatter},
     marker::PhantomData,
 };
@@ -620,6 +621,13 @@ where
         self.insert(key, value)
     }
 
+    /// Compare the positions in the tree of two pointers, neither of which may be null.
+    pub(crate) fn cmp_position(&self, other: &Self) -> Ordering {
+        let left = self.stack.iter().map(|(_, index)| index);
+        let right = other.stack.iter().map(|(_, index)| index);
+        left.cmp(right).then(self.index.cmp(&other.index))
+    }
+
     pub(crate) fn clear(&mut self) {
         self.leaf = std::ptr::null();
     }
-- 
2.43.0


From 85c91205226c1349a5b8d13f6c125755051280fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 19/20] fix: removing from a tree with an emptied branch must
 not read through a null pointer

---
 src/search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 0962175..95c2c0e 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -464,7 +464,7 @@ where
     /// before anything is removed, because cloning a key can panic.
     unsafe fn lowered_keys(&self) -> Vec<K> {
         let mut lowered = Vec::new();
-        if self.deref_leaf_unchecked().len() == 1 {
+        if self.deref_leaf().map_or(false, |leaf| leaf.len() == 1) {
             let mut levels = self
                 .stack
                 .iter()
-- 
2.43.0


From c19e7f75f57cb758c844130968b74c8d81eed471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 20/20] fix: a panic in a destructor must not leave a size
 behind

---
 src/entry.rs  |  4 +---
 src/lib.rs    | 12 +++---------
 src/search.rs |  4 +++-
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 5ea1a71..9dd8a6d 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -155,9 +155,7 @@ where
     }
 
     pub fn remove_entry(self) -> (K, V) {
-        let removed = unsafe { self.cursor.remove() };
-        self.tree.size -= 1;
-        removed
+        unsafe { self.cursor.remove(&mut self.tree.size) }
     }
 
     pub fn remove(self) -> V {
diff --git a/src/lib.rs b/src/lib.rs
index ee24a0f..392aeb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -278,9 +278,7 @@ where
     {
         let root = Pointer::make_mut(self.root.as_mut()?);
         if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
-            let removed = unsafe { path.remove() };
-            self.size -= 1;
-            Some(removed)
+            Some(unsafe { path.remove(&mut self.size) })
         } else {
             None
         }
@@ -295,9 +293,7 @@ where
         } else {
             let root = Pointer::make_mut(self.root.as_mut()?);
             let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
-            let removed = unsafe { path.remove() };
-            self.size -= 1;
-            Some(removed)
+            Some(unsafe { path.remove(&mut self.size) })
         }
     }
 
@@ -310,9 +306,7 @@ where
         } else {
             let root = Pointer::make_mut(self.root.as_mut()?);
             let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
-            let removed = unsafe { path.remove() };
-            self.size -= 1;
-            Some(removed)
+            Some(unsafe { path.remove(&mut self.size) })
         }
     }
 
diff --git a/src/search.rs b/src/search.rs
index 95c2c0e..3e1b8cd 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -426,12 +426,14 @@ where
     /// Remove the entry being pointed at.
     ///
     /// You're responsible for ensuring there is indeed an entry being pointed at.
-    pub(crate) unsafe fn remove(mut self) -> (K, V) {
+    pub(crate) unsafe fn remove(mut self, size: &mut usize) -> (K, V) {
         // TODO need a strategy for rebalancing after remove
         let index = self.index;
         let mut lowered = self.lowered_keys();
         let leaf = self.deref_mut_leaf().unwrap();
         let (key, value) = leaf.remove_unchecked(index);
+        // Destroying what has become empty can panic, so the size must be right by then.
+        *size -= 1;
         if leaf.is_empty() {
             while let Some((branch, index)) = self.stack.pop() {
                 let branch = &mut *(branch as *mut Branch<K, V, C>);
-- 
2.43.0

