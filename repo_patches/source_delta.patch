From 12207ae82cbc8e573d9e542aab20c45d0c255c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 01/18] fix: keep every path component in BoundedCursor

new_empty() placed the start index one short of the end and prepend_to_path
wrote before decrementing, so an empty cursor yielded a garbage component and
every stored path was off by one.
---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From 345e42e485f620498e251520d38e6e18968db958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 02/18] fix: descend into the child in cursor_to on
 clone-on-write trees

When a child's recorded parent is not the node it was reached from, the helper
recursed on that same node again instead of the child, overflowing the stack.
---
 src/tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..47e42d1 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -495,7 +495,7 @@ where
                             let mismatched_parent = P::COW
                                 && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From 43abe6afe77c3b089f0a607021e2f0c674c4eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 03/18] fix: compare against the actual parent when stepping an
 iterator

The check whether a shared child records a different parent compared with the
node the step started from, so a stale parent pointer equal to that node's
address was trusted and iteration continued in the wrong node.
---
 src/tree/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..b2e2525 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -394,7 +394,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx))
                             }
                             _ => (),
@@ -486,7 +486,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx));
                             }
                             _ => (),
-- 
2.43.0


From f6aaadb4ed06ffbb6859f8436fb1db9480cffeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 04/18] fix: check the child index as well when walking back up
 in cursor_to

A stale parent pointer may coincide with the address of the current node while
the recorded child index belongs to the old one.
---
 src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 47e42d1..4f56f5d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,7 +493,10 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if (p.ptr, p.idx_in_parent) != (n.ptr(), c_idx)
+                                );
                             if mismatched_parent {
                                 let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
-- 
2.43.0


From f53cbe11f72f6a182a5f05d243047ddafe92f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 05/18] fix: follow the joined slice when inserting the rest of
 a split slice

If a value is inserted in the middle of a slice and joins with only the left
piece, then the returned cursor and slice reference are for that piece, while
the tree changes start from where the right piece goes. The cursor was built
from the wrong place if the two were in different nodes, and the reference was
not updated when internal nodes were split.
---
 src/cursor.rs      |  18 ++------
 src/tree/fix.rs    |   2 +-
 src/tree/insert.rs | 109 ++++++++++++++++++++++++++++-----------------
 3 files changed, 72 insertions(+), 57 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 9c2165f..50fd050 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -167,15 +167,10 @@ pub(crate) struct CursorBuilder<'c> {
 
 // note: we require MaybeDebug so that the Debug impl for CursorBuilder is possible
 trait CursorBuilderDispatch: crate::MaybeDebug {
-    fn reset(&mut self);
     fn prepend_to_path(&mut self, component: PathComponent);
 }
 
 impl<C: Cursor> CursorBuilderDispatch for C {
-    fn reset(&mut self) {
-        *self = C::new_empty();
-    }
-
     fn prepend_to_path(&mut self, component: PathComponent) {
         self.prepend_to_path(component);
     }
@@ -192,9 +187,9 @@ impl<'c> CursorBuilder<'c> {
         }
     }
 
-    /// Returns the value of the inner cursor's [`IS_NOP`](Cursor::IS_NOP)
-    pub(crate) fn is_nop(&self) -> bool {
-        self.builder.is_none()
+    /// Creates a new `CursorBuilder` that discards the path it's given
+    pub(crate) fn nop() -> Self {
+        CursorBuilder { builder: None }
     }
 
     /// Dynamic dispatch for [`Cursor::prepend_to_path`]
@@ -204,13 +199,6 @@ impl<'c> CursorBuilder<'c> {
         }
     }
 
-    /// Dynamic dispatch for `*cursor = Cursor::new_empty()`
-    pub(crate) fn reset(&mut self) {
-        if let Some(c) = self.builder.as_mut() {
-            c.reset();
-        }
-    }
-
     /// Convenience method to reborrow the `CursorBuilder`, much like you would a `&mut` reference
     ///
     /// This allows us to always pass around `CursorBuilder` objects directly, which means we never
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..b87f383 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -261,7 +261,7 @@ where
         lhs: &NodeHandle<Ty, B, I, S, P, M>,
         idx: u8,
         rhs: &NodeHandle<Ty, borrow::UniqueOwned, I, S, P, M>,
-    ) -> impl IntoIterator<Item = TraverseUpdate<I, S, P, M>> {
+    ) -> [TraverseUpdate<I, S, P, M>; 2] {
         [
             Self::Move {
                 old_ptr: lhs.ptr(), old_range: idx + 1..idx + 1 + rhs.leaf().len(),
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..6035579 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1001,6 +1001,7 @@ where
         let old_lhs_size = right_of.slice_size();
         let lhs_height = right_of.node.height();
         let lhs_k_idx = right_of.idx;
+        let lhs_handle = (right_of.node.ptr(), lhs_height, lhs_k_idx);
 
         // First step: find the leaf immediately to the right of `right_of`
         let (next_leaf, insert_idx) = match right_of.node.into_typed() {
@@ -1109,25 +1110,36 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
+        // If the cursor should lead to `right_of` instead of `fst`, then it can't be built by the
+        // upward traversal: that starts from the leaf containing `fst`, and `right_of` may be
+        // somewhere else, both before and after any splitting. Instead, we track where `right_of`
+        // goes and build the cursor at the end.
+        let (cursor_builder, mut lhs_cursor) = match cursor_mode {
+            CursorMode::Lhs => (CursorBuilder::nop(), Some(cursor_builder)),
+            CursorMode::Fst => (cursor_builder, None),
+        };
 
-        let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
+        let lhs_handle = Cell::new(Some(lhs_handle));
 
         let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
+        let updates_callback: UpdatesCallback<I, S, P, M> = if lhs_cursor.is_some() {
             new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
+                match (&upd, lhs_handle.get()) {
                     (
                         TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
+                        Some((lhs_ptr, _, lhs_idx)),
+                    ) if *old_ptr == lhs_ptr && old_range.contains(&lhs_idx) => {
+                        let new_idx = new_range.start + (lhs_idx - old_range.start);
+                        lhs_handle.set(Some((*new_ptr, *new_height, new_idx)));
+                    }
+                    (
+                        &TraverseUpdate::Remove { ptr, height: _, idx },
+                        Some((lhs_ptr, _, lhs_idx)),
+                    ) if ptr == lhs_ptr && idx == lhs_idx => {
+                        lhs_handle.set(None);
+                    }
+                    (&TraverseUpdate::PutBack { ptr, height, idx }, None) => {
+                        lhs_handle.set(Some((ptr, height, idx)));
                     }
                     _ => (),
                 }
@@ -1139,37 +1151,12 @@ where
             updates_callback
         };
 
-        let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
-            if node.height() == lhs_height {
-                builder.reset();
-            }
-        };
-
-        let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
-            if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
-            }
-            side
-        };
-
         let mut mapper = MapBubbledInsertState {
-            post_op: MapOpUpdateState {
-                cursor: Some(&mut map_cursor),
-                sizes: Some(&mut map_sizes),
-            },
-            cursor_side: Some(&mut map_cursor_side),
+            post_op: MapOpUpdateState { cursor: None, sizes: Some(&mut map_sizes) },
+            cursor_side: None,
             shift_lhs: Some(&mut map_shift_lhs),
         };
 
-        if !remap_cursor {
-            mapper.post_op.cursor = None;
-            mapper.cursor_side = None;
-        }
-
         let override_lhs_size = match lhs_height == leaf_height {
             true => {
                 mapper.post_op.sizes = None;
@@ -1188,7 +1175,7 @@ where
         // It also requires that `insert_idx != 0` if `override_lhs_size.is_some()`, which is
         // guaranteed by our search procedure above; `insert_idx = lhs_k_idx + 1` if `next_leaf` is
         // at the same height, and is otherwise equal to zero.
-        unsafe {
+        let result = unsafe {
             Self::do_insert_full_edge_no_join(
                 store,
                 cursor_builder,
@@ -1200,7 +1187,35 @@ where
                 updates_callback,
                 mapper,
             )
+        };
+
+        // Build the path to `right_of`, if that's what the cursor is for. If there's currently no
+        // handle on it, then it's the key of the new root -- so the path is empty.
+        if let (Some(cursor), Some((ptr, height, idx))) = (lhs_cursor.as_mut(), lhs_handle.get()) {
+            // SAFETY: all changes to the tree have been made (excluding the new root, if there is
+            // one), and the updates above mean that this is where the slice currently is.
+            let handle: SliceHandle<ty::Unknown, borrow::SliceRef, I, S, P, M> =
+                unsafe { SliceHandle::from_raw_parts(ptr, height, idx) };
+
+            let mut node = handle.node;
+            let top = loop {
+                match node.into_parent() {
+                    Ok((parent, child_idx)) => {
+                        cursor.prepend_to_path(PathComponent { child_idx });
+                        node = parent.erase_type();
+                    }
+                    Err(top) => break top,
+                }
+            };
+
+            // The new root hasn't been created yet, so we have to account for it separately
+            if let PostInsertResult::NewRoot { lhs, .. } = &result {
+                let side = if top.ptr() == lhs.ptr() { Side::Left } else { Side::Right };
+                cursor.prepend_to_path(PathComponent { child_idx: side as u8 });
+            }
         }
+
+        result
     }
 
     //////////////////////////////////////////////////////////
@@ -2060,6 +2075,11 @@ where
         let mut rhs = NodeBox::new(rhs);
         parent.set_subtree_size(midpoint_key.pos);
 
+        // Signal the move from splitting. The removal of the midpoint key is handled further on, if
+        // it's not going back to where it was.
+        let [split_move, split_remove] = TraverseUpdate::split(&parent, midpoint_idx, &rhs.node);
+        updates_callback(split_move);
+
         // We want to find `rhs_start` (i.e. the position of the first child in `rhs`), but there's
         // a couple edge cases we have to handle first:
         //
@@ -2208,6 +2228,13 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // `self.key` had to be put back before the midpoint could be marked as removed. If we
+            // inserted on the left, then the midpoint is to the right of everything relevant to the
+            // insertion, so there's no need to signal it (and `self.key` may have taken its index).
+            if let Side::Right = side {
+                updates_callback(split_remove);
+            }
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
-- 
2.43.0


From ca3e043f3bc0b5e4fbad174eca11fa24f8323549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 06/18] fix: keep slice references intact when the tree is
 dropped during a borrow

---
 src/tree/slice_ref.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..b7f0c65 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -441,19 +441,17 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
     fn drop(&mut self) {
         let inner = self.inner();
 
-        let new_state = match inner.borrow.get() {
+        match inner.borrow.get() {
             BorrowState::NotBorrowed
             | BorrowState::Mutable
             | BorrowState::Immutable { drop_if_zero: false, .. }
             | BorrowState::Dropped => unreachable!("invalid state"),
 
-            BorrowState::Immutable { count, .. } => {
-                BorrowState::Immutable { count, drop_if_zero: true }
-            }
-            BorrowState::Dropping => BorrowState::Dropped,
-        };
-
-        inner.borrow.set(new_state);
+            // There's still at least one active borrow, so neither the tree nor `refs` can be
+            // dropped yet. Both are handled when the last borrow is released.
+            BorrowState::Immutable { drop_if_zero: true, .. } => return,
+            BorrowState::Dropping => inner.borrow.set(BorrowState::Dropped),
+        }
 
         // drop(ish) the inner contents. `false` because the tree's already handled by our caller,
         // in `destruct_root`
@@ -461,7 +459,7 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
 
         // If everything has been *completely* dropped, and there's no weak references left (in the
         // form of `SliceRef`s), then we can deallocate the backing allocation.
-        if matches!(new_state, BorrowState::Dropped if inner.weak_count.get() == 0) {
+        if inner.weak_count.get() == 0 {
             // SAFETY: this is being called only once we know no other usages of the value can
             // exist
             unsafe { InnerStore::dealloc(self.inner) }
-- 
2.43.0


From 4f97fe7eb9b427842b130783dd11e9c42f40ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 07/18] fix: count and preserve slice references cloned after
 the tree is dropped

---
 src/tree/slice_ref.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index b7f0c65..434a417 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -842,17 +842,20 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
-        let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
-            None => None,
-            Some(r) => {
-                let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
-                let new_id = refs.clone(&this_id);
-                self.id.set(Some(this_id));
-                Some(new_id)
-            }
+        let id = self.id.take().map(|this_id| {
+            let new_id = match self.get_refs_without_borrow() {
+                Some(refs) => refs.borrow().clone(&this_id),
+                // SAFETY: there's no `RecycleVec` to access only if it's been (or is about to be)
+                // dropped, in which case reference counts are no longer relevant.
+                None => unsafe { this_id.clone_because_vec_is_dropped() },
+            };
+            self.id.set(Some(this_id));
+            new_id
         });
 
+        // The new `SliceRef` keeps the allocation alive, even if it doesn't refer to anything.
+        bump_weak_count(&self.inner().weak_count);
+
         SliceRef {
             inner: self.inner,
             id: Cell::new(id),
-- 
2.43.0


From 5504d65dfd3abcf8bdd36e8a29e457b2190b5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 08/18] fix: don't create mutable references to shared nodes
 for immutable handles

---
 src/tree/node.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..bfec230 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -345,29 +345,32 @@ pub(super) mod borrow {
     /// The implementation for `Mut` requires `P: SupportsInsert`, and sets `Param = P`. The
     /// implementation for `Immut` sets an arbitrary `Param` and does nothing.
     ///
-    /// The name "cast" for `cast_ref_if_mut` isn't quite accurate; it either returns its input
+    /// The name "cast" for `cast_ptr_if_mut` isn't quite accurate; it either returns its input
     /// (with added guarantees about the types), or does nothing.
+    ///
+    /// Note: the input is a raw pointer because, for `Immut`, the pointed-to node may be shared with
+    /// other threads. Creating a mutable reference to it would be unsound, even if never written to.
     pub trait SupportsInsertIfMut<I, S, P, const M: usize>
     where
         P: RleTreeConfig<I, S, M>,
     {
         type Param: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>;
 
-        fn cast_ref_if_mut(
-            r: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>>;
+        fn cast_ptr_if_mut(
+            p: *mut NodePtr<I, S, P, M>,
+        ) -> Option<*mut NodePtr<I, S, Self::Param, M>>;
     }
     impl<'a, I, S, P, const M: usize> SupportsInsertIfMut<I, S, P, M> for Immut<'a>
     where
         P: RleTreeConfig<I, S, M>,
     {
-        // This may not match `P`, but is still sound because `cast_ref_if_mut` will always return
+        // This may not match `P`, but is still sound because `cast_ptr_if_mut` will always return
         // `None`, meaning that it's never used.
         type Param = crate::param::NoFeatures;
 
-        fn cast_ref_if_mut(
-            _: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>> {
+        fn cast_ptr_if_mut(
+            _: *mut NodePtr<I, S, P, M>,
+        ) -> Option<*mut NodePtr<I, S, Self::Param, M>> {
             None
         }
     }
@@ -377,8 +380,8 @@ pub(super) mod borrow {
     {
         type Param = P;
 
-        fn cast_ref_if_mut(r: &mut NodePtr<I, S, P, M>) -> Option<&mut NodePtr<I, S, P, M>> {
-            Some(r)
+        fn cast_ptr_if_mut(p: *mut NodePtr<I, S, P, M>) -> Option<*mut NodePtr<I, S, P, M>> {
+            Some(p)
         }
     }
 }
@@ -2062,9 +2065,10 @@ where
             p as *mut _
         };
 
-        let ptr_ref = unsafe { &mut *child_ptr_ptr };
-
-        if let Some(r) = B::cast_ref_if_mut(ptr_ref) {
+        if let Some(p) = B::cast_ptr_if_mut(child_ptr_ptr) {
+            // SAFETY: `cast_ptr_if_mut` only returns `Some` for `borrow::Mut`, where the caller
+            // guarantees that access to this node is unique.
+            let r = unsafe { &mut *p };
             unsafe { ensure_unique(r, self.height.get() - 1) };
 
             // Because we have unique mutable access now, make sure that the child's parent pointer
@@ -2081,7 +2085,8 @@ where
         }
 
         NodeHandle {
-            ptr: *ptr_ref,
+            // SAFETY: the child pointer is initialized and valid for reads; see above.
+            ptr: unsafe { *child_ptr_ptr },
             height: self.height.get() - 1,
             borrow: self.borrow,
         }
-- 
2.43.0


From 1d2688f8dfad4942f3de404a60f09ba1e8942631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 09/18] fix: don't leave a half-modified tree reachable if
 insertion panics

Insertion moves values out of the nodes while user-supplied code (slice splitting
and joining, index arithmetic) runs. If that code panicked, the tree was left
with holes and already-dropped values that later reads accessed. Leak the nodes
on unwinding instead, leaving the tree empty.
---
 src/tree/insert.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 6035579..6f10960 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -5,6 +5,7 @@ use crate::param::{BorrowState, RleTreeConfig, SliceRefStore as _, SupportsInser
 use crate::{Index, PathComponent, RleTree, Slice};
 use std::cell::Cell;
 use std::cmp::Ordering;
+use std::mem;
 use std::ops::ControlFlow;
 
 use super::fix::{
@@ -19,6 +20,27 @@ use crate::MaybeDebug;
 #[cfg(test)]
 use std::fmt::{self, Debug, Formatter};
 
+/// (*Internal*) Guard that leaks the contents of an `Option`, leaving `None`, if it's dropped
+///
+/// This is used to prevent access to the nodes of a tree if insertion into it panics part-way.
+struct LeakOnUnwind<T>(*mut Option<T>);
+
+impl<T> LeakOnUnwind<T> {
+    /// ## Safety
+    ///
+    /// The pointer must be valid for reads and writes if and when the `LeakOnUnwind` is dropped
+    unsafe fn new(ptr: *mut Option<T>) -> Self {
+        LeakOnUnwind(ptr)
+    }
+}
+
+impl<T> Drop for LeakOnUnwind<T> {
+    fn drop(&mut self) {
+        // SAFETY: guaranteed by the caller of `new`
+        mem::forget(unsafe { (*self.0).take() });
+    }
+}
+
 ///////////////////////////////////////////////
 // High-level entrypoint (lower-level below) //
 ///////////////////////////////////////////////
@@ -63,7 +85,10 @@ where
             panic!("cannot insert new slice, size {size:?} is not greater than zero");
         }
 
-        let root = match &mut self.root {
+        let root_ptr: *mut Option<_> = &mut self.root;
+        // SAFETY: `root_ptr` was just created from a valid reference. It's only otherwise used if we
+        // unwind (see `LeakOnUnwind`, below).
+        let root = match unsafe { &mut *root_ptr } {
             Some(r) => r,
             // If there's no root, then we don't need to worry about any shared references. We can just
             // create a fresh tree and return:
@@ -111,6 +136,14 @@ where
         //
         let insertion_point = Self::find_insertion_point(owned_root.borrow_mut(), cursor_path, idx);
 
+        // From here on, until we're done, the nodes may be in an inconsistent state (e.g. with holes
+        // in place of slices) while user-supplied code is running. If any of it panics, we can't
+        // allow the nodes to be accessed again, so they get leaked instead.
+        //
+        // SAFETY: `root_ptr` is valid for as long as `self` is borrowed, and all other references
+        // to the root will be gone by the time that unwinding drops `leak_on_unwind`.
+        let leak_on_unwind = unsafe { LeakOnUnwind::new(root_ptr) };
+
         // Inseriton algorithm, Part 2: do the thing
         let (post_insert_result, mut insertion) = if P::SLICE_REFS {
             let mut insertion = None;
@@ -175,6 +208,9 @@ where
             panic!("internal error: final insertion handle is `None` but P is `AllowSliceRefs`");
         }
 
+        // Nothing after this runs any user-supplied code
+        mem::forget(leak_on_unwind);
+
         // Release the mutable borrow we originally acquired. It doesn't matter whether we do this
         // before or after replacing from a shallow copy because shallow copies only exist with COW
         // functionality, and explicit borrow state only exists with slice references (which is
-- 
2.43.0


From f60dcaab646535347b1028130d1de9e36d98b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 10/18] fix: respect the order of operands in index arithmetic
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Key positions after an insertion were shifted by `old_end⁻¹ + new_end` instead of
`new_end - old_end`, the position of a child was calculated by removing its size
from the wrong side, and so was the size of a `SliceEntry`. This is not visible
with the built-in (commutative) indexes, but gives wrong positions with others.
---
 src/tree/entry.rs  | 2 +-
 src/tree/fix.rs    | 6 +++---
 src/tree/insert.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index b87f383..82b9e10 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -730,7 +730,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -742,7 +742,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 6f10960..6ccec2f 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1113,7 +1113,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 47ddc96f6d59c4ca38fab480a8f5ada50decc77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 11/18] fix: report non-positive sizes as an error when
 deserializing

These used to panic in `RleTree::insert`, so untrusted input could cause a panic.
---
 src/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..8684053 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,11 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom("size of a slice must be greater than zero"));
+            }
+
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From a715058003a7c36f6f870b108b5a417ad6351673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 12/18] fix: never call try_join in the mock unless
 Slice::MAY_JOIN is set

The documentation of Slice promises that try_join is not called otherwise.
---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 20fa07e..21c7081 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -150,7 +150,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         let mut lhs_stable_id = None;
         let mut rhs_stable_id = None;
 
-        if let Some(p) = idx.checked_sub(1) {
+        if let Some(p) = idx.checked_sub(1).filter(|_| S::MAY_JOIN) {
             let (lhs_end, lhs, lhs_id) = self.runs.remove(p);
             self.refs_map.remove(lhs_id, p);
             assert_eq!(lhs_end, index);
@@ -175,7 +175,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         }
 
         // `idx` is already the right-hand node, because `index` is equal to the end of `lhs`
-        if idx < self.runs.len() {
+        if S::MAY_JOIN && idx < self.runs.len() {
             let (rhs_end, rhs, rhs_id) = self.runs.remove(idx);
             self.refs_map.remove(rhs_id, idx);
             match slice.try_join(rhs) {
-- 
2.43.0


From ff10fe597452850a6154ccc5c73523151c09ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 13/18] fix: respect the order of operands when the mock shifts
 runs

---
 src/mock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index 21c7081..0384cc4 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -207,7 +207,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             self.refs_map.remap(id, stable_id);
         }
 
-        let diff = base_pos.add_right(new_size).sub_left(base_pos.add_right(old_size));
+        let diff = base_pos.add_right(new_size).sub_right(base_pos.add_right(old_size));
 
         for (i, ..) in self.runs.get_mut(idx + 1..).unwrap_or(&mut []) {
             *i = i.add_left(diff);
-- 
2.43.0


From 6fd508fa8fd71f5e9fd27d57f4a8ec663393b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 14/18] fix: have the mock refuse negative sizes and range
 starts, as RleTree does

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 0384cc4..598ec60 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -106,7 +106,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
     }
 
     pub fn insert(&mut self, index: I, mut slice: S, size: I, make_ref: bool) -> Option<Ref> {
-        if size == I::ZERO {
+        if size <= I::ZERO {
             panic!("invalid insertion size");
         } else if index > self.size() {
             panic!("index out of bounds");
@@ -252,7 +252,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             StartBound::Included(i) => {
                 start_pos = i;
                 unbounded_start = false;
-                if i >= self.size() {
+                if i < I::ZERO || i >= self.size() {
                     panic!("start index out of bounds");
                 }
 
-- 
2.43.0


From fa6796840a8fd84b064b36525d7f29a4c5e0b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 15/18] fix: print a refused borrow_slice as a statement, so
 the printed test compiles

---
 fuzz-utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fuzz-utils/src/lib.rs b/fuzz-utils/src/lib.rs
index a1671e2..5bdf1cc 100644
--- a/fuzz-utils/src/lib.rs
+++ b/fuzz-utils/src/lib.rs
@@ -309,7 +309,7 @@ impl<I: Debug, S: Debug> Debug for SliceRefCommand<I, S> {
             }
             Self::CheckRefSlice { id: _, ref_id, slice: Err(()) } => {
                 f.write_str("    assert!(std::panic::catch_unwind(move || {\n")?;
-                writeln!(f, "        ref_{ref_id}.borrow_slice()")?;
+                writeln!(f, "        let _ = ref_{ref_id}.borrow_slice();")?;
                 f.write_str("    }).is_err());\n")
             }
             Self::DropRef { ref_id } => writeln!(f, "    drop(ref_{ref_id});"),
-- 
2.43.0


From 0e5555a528d871465c8d5b23ad953d3641397485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 16/18] fix: require Send as well for sharing clone-on-write
 trees between threads

---
 src/param.rs    | 17 +++++++++++++++++
 src/tree/mod.rs | 13 +++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 574cfe8..949d770 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -148,6 +148,19 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// [`SliceRef`]: crate::SliceRef
 pub trait RleTreeIsSend<I, S> {}
 
+/// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
+///
+/// This is the counterpart of [`RleTreeIsSend`]:
+///
+/// | Parameter | Requirements |
+/// |-----------|--------------|
+/// | [`NoFeatures`] | A reference to the [`RleTree`] only gives references to the values it contains, so this requires only `I: Sync` and `S: Sync`. |
+/// | [`AllowCow`] | Like an `Arc`, a reference to the [`RleTree`] is enough to clone it on another thread, and the clone may turn out to be the last owner of the values. As for `Arc`s, we must have `I: Send + Sync` **and** `S: Send + Sync`. |
+/// | [`AllowSliceRefs`] | [`RleTree`]s with this enabled will never implement `Sync`. |
+///
+/// [`RleTree`]: crate::RleTree
+pub trait RleTreeIsSync<I, S> {}
+
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
     pub trait TraitYouCantReach {}
@@ -305,3 +318,7 @@ impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
 impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
 impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+
+// Refer to `RleTreeIsSync` for more information about implementing `Sync`
+impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 4f56f5d..3012146 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -2,8 +2,8 @@
 
 use crate::cursor::{Cursor, CursorBuilder, NoCursor, PathComponent};
 use crate::param::{
-    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, SliceRefStore as _,
-    SupportsInsert,
+    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, RleTreeIsSync,
+    SliceRefStore as _, SupportsInsert,
 };
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
@@ -130,8 +130,9 @@ where
 // `AllowCow`, the interior mutability that we *do* have is solely around the `Arc`s or
 // `AtomicUsize`s for tracking reference counts, which are both `Send + Sync`, and should be fine
 // from `[Ref]UnwindSafe`. However, because `AllowCow` *also* allows the same value to be viewed
-// from multiple threads, implementing `Send` requires `Send + Sync` on both `I` and `S`. For more,
-// refer to the docs on `RleTreeIsSend`.
+// from multiple threads, implementing `Send` requires `Send + Sync` on both `I` and `S`; and because
+// a reference to the tree is enough to clone it, so does implementing `Sync`. For more, refer to the
+// docs on `RleTreeIsSend` and `RleTreeIsSync`.
 //
 // The tricky one is `AllowSliceRefs`. With `SliceRef`s, we cannot be `Send` or `Sync`, because the
 // shared ownership is managed by `Cell` and `RefCell`. They *can* be `UnwindSafe` or
@@ -152,8 +153,8 @@ unsafe impl<I, S, P, const M: usize> Send for RleTree<I, S, P, M> where
 {
 }
 
-unsafe impl<I: Sync, S: Sync, P: Sync, const M: usize> Sync for RleTree<I, S, P, M> where
-    P: RleTreeConfig<I, S, M>
+unsafe impl<I, S, P, const M: usize> Sync for RleTree<I, S, P, M> where
+    P: RleTreeConfig<I, S, M> + RleTreeIsSync<I, S>
 {
 }
 
-- 
2.43.0


From e7f26ab3fd00366184b2a5536cc712b96e84f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 17/18] fix: don't let safe code implement the traits that
 decide about thread safety

---
 src/param.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 949d770..9b992b2 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -43,7 +43,7 @@ pub struct AllowSliceRefs(PhantomData<std::rc::Rc<()>>);
 /// implemented outside of this crate.
 ///
 /// [`RleTree`]: crate::RleTree
-pub trait RleTreeConfig<I, S, const M: usize>: Sized {
+pub trait RleTreeConfig<I, S, const M: usize>: Sized + sealed::YouCantImplementThis {
     /// A type bound you can't satisfy, here to make sure you can't implement this trait
     #[doc(hidden)]
     type YouCantImplementThis: sealed::TraitYouCantReach;
@@ -75,7 +75,12 @@ pub trait RleTreeConfig<I, S, const M: usize>: Sized {
 /// implemented outside this crate.
 ///
 /// This trait is implemented for everything except `AllowCow` when `S` doesn't implement `Clone`.
-pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
+///
+/// ## Safety
+///
+/// `clone_slice` must be provided if `Self = AllowCow`; all the sound implementations are provided by
+/// this crate.
+pub unsafe trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
     /// Shim to access the implementation of `Clone` for `S` *only when used with `AllowCow`*. All
     /// other implementations are equivalent to [`std::hint::unreachable_unchecked`].
     ///
@@ -146,7 +151,12 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 ///
 /// [`RleTree`]: crate::RleTree
 /// [`SliceRef`]: crate::SliceRef
-pub trait RleTreeIsSend<I, S> {}
+///
+/// ## Safety
+///
+/// Implementing this trait makes [`RleTree`]s with the types `Send`; all the sound implementations
+/// are provided by this crate.
+pub unsafe trait RleTreeIsSend<I, S> {}
 
 /// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
 ///
@@ -158,8 +168,13 @@ pub trait RleTreeIsSend<I, S> {}
 /// | [`AllowCow`] | Like an `Arc`, a reference to the [`RleTree`] is enough to clone it on another thread, and the clone may turn out to be the last owner of the values. As for `Arc`s, we must have `I: Send + Sync` **and** `S: Send + Sync`. |
 /// | [`AllowSliceRefs`] | [`RleTree`]s with this enabled will never implement `Sync`. |
 ///
+/// ## Safety
+///
+/// Implementing this trait makes [`RleTree`]s with the types `Sync`; all the sound implementations
+/// are provided by this crate.
+///
 /// [`RleTree`]: crate::RleTree
-pub trait RleTreeIsSync<I, S> {}
+pub unsafe trait RleTreeIsSync<I, S> {}
 
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
@@ -306,19 +321,19 @@ impl<I, S, const M: usize> RleTreeConfig<I, S, M> for AllowSliceRefs {
     type SliceRefStore = slice_ref::SliceRefStore<I, S, M>;
 }
 
-impl<I, S, const M: usize> SupportsInsert<I, S, M> for NoFeatures {}
-impl<I, S, const M: usize> SupportsInsert<I, S, M> for AllowSliceRefs {}
+unsafe impl<I, S, const M: usize> SupportsInsert<I, S, M> for NoFeatures {}
+unsafe impl<I, S, const M: usize> SupportsInsert<I, S, M> for AllowSliceRefs {}
 
-impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
+unsafe impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
     unsafe fn clone_slice(slice: &S) -> S {
         slice.clone()
     }
 }
 
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
-impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
-impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+unsafe impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
 
 // Refer to `RleTreeIsSync` for more information about implementing `Sync`
-impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
-impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
+unsafe impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
-- 
2.43.0


From cbf77b170209bfe0b6b36f04e3314282f104b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 18/18] fix: values of a tree must outlive it when its
 destructor may run on dangling data

With the `nightly` feature, `RleTree`'s destructor is `#[may_dangle]` for the
index and value types, but no field says that the tree owns values of those types,
so that safe code could drop what a value with a destructor refers to before the
tree itself, whose destructor would then run that of the value.
---
 src/tree/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 3012146..414dac1 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -8,6 +8,7 @@ use crate::param::{
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
 use std::fmt::Debug;
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 use std::ops::Range;
 use std::panic::{RefUnwindSafe, UnwindSafe};
@@ -167,6 +168,10 @@ where
     handle: ManuallyDrop<NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>>,
     len: usize,
     refs_store: <P as RleTreeConfig<I, S, M>>::SliceRefStore,
+    // Dropping the tree may drop values of type `I` and `S`, which the pointers in `handle` don't
+    // show. With `#[may_dangle]`, this is what tells the compiler that they must still be valid.
+    // (`Box` because, like any other collection, moving the tree doesn't move its contents)
+    contents: PhantomData<Box<(I, S)>>,
 }
 
 #[cfg(not(feature = "nightly"))]
@@ -354,6 +359,7 @@ where
                 handle: ManuallyDrop::new(handle),
                 len: 1,
                 refs_store: P::SliceRefStore::new(store_handle),
+                contents: PhantomData,
             }),
         }
     }
@@ -779,6 +785,7 @@ where
                     handle: ManuallyDrop::new(root.handle.as_immut().deep_clone().erase_unique()),
                     len: root.len,
                     refs_store: Default::default(),
+                    contents: PhantomData,
                 }),
             },
         }
@@ -802,6 +809,7 @@ impl<I, S: Clone, const M: usize> Clone for RleTree<I, S, param::AllowCow, M> {
                         len: root.len,
                         // refs_store will be empty because this is a COW-enabled tree
                         refs_store: Default::default(),
+                        contents: PhantomData,
                     }),
                 }
             }
-- 
2.43.0

