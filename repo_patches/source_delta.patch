From 3308b906022bc052e67c6dc69dbe6a563d865530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 01/12] fix: Leaf::is_hole ignored the second hole

---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From 9579a0760c1168f506ee44bca819046896f63996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 02/12] fix: apply directional index arithmetic on the correct
 side

SliceEntry::size, the child position in OpUpdateState::do_upward_step and
insert_rhs, and the increasing case of shift_keys subtracted on the wrong side,
which gives wrong sizes and positions for indexes whose addition does not
commute.
---
 src/tree/entry.rs  |  2 +-
 src/tree/fix.rs    | 10 ++++++----
 src/tree/insert.rs |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..4429444 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -730,9 +730,11 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
-    // This one is to be used when `IS_INCREASE` is true.
+    // This one is to be used when `IS_INCREASE` is true. Writing `d` for the difference, we have
+    // `new_end = d.add_right(old_end)`, so `k_pos.sub_left(old_end).add_left(new_end)` first
+    // cancels and then restores `old_end`, leaving just `k_pos.add_left(d)`.
     //
     // ---
     //
@@ -742,7 +744,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..c46429c 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 69d509dbc6b20416fe3e2c646ebe1d9a12cb7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 03/12] fix: cursor_to recursed forever on a copy-on-write tree
 with shared nodes

The recursion has to continue from the child whose stored parent does not match,
and a child without a stored parent or stored at a different index mismatches
as well.
---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..da4c07d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From 89436bbb68c1a26006b392bbdd8e9db3db8de550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 04/12] fix: iteration took a wrong parent in copy-on-write
 trees

A descent by more than one level compared the child's stored parent with the
node it started from instead of the child's actual parent, and a child without
a stored parent was not remembered.
---
 src/tree/iter.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..2c3480a 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -359,11 +359,9 @@ where
                     // add `head_node` to the stack.
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            // Different child pointer:
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
-                                stack.push((head_node, c_idx))
-                            }
-                            _ => (),
+                            Some(pair) if pair == (node.ptr(), c_idx) => (),
+                            // Different or missing parent pointer:
+                            _ => stack.push((head_node, c_idx)),
                         }
                     }
 
@@ -394,10 +392,8 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx))
-                            }
-                            _ => (),
+                            Some(pair) if pair == (parent.ptr(), c_idx) => (),
+                            _ => self.stack.push((parent.erase_type(), c_idx)),
                         }
                     }
 
@@ -486,10 +482,8 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx));
-                            }
-                            _ => (),
+                            Some(pair) if pair == (parent.ptr(), c_idx) => (),
+                            _ => self.stack.push((parent.erase_type(), c_idx)),
                         }
                     }
 
-- 
2.43.0


From c1eedcee76f761da18951efa4a4f69dc560778c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 05/12] fix: BoundedCursor lost the first component and
 produced an invalid one

The start index was off by one: an empty cursor already had one (invalid)
component, and components were stored after the reported start.
---
 src/cursor.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..141a847 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -112,12 +111,12 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
                 return;
             }
 
-            // if the cursor is already full,
+            // if the cursor is already full, make room by dropping the deepest component
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From f572224e612d38e68a0f1003b13995b23ad5c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 06/12] fix: cursor returned by an insertion joined with its
 left neighbour

When the joined slice is in an internal node and the remainder is inserted below
it, the returned cursor pointed at the remainder or somewhere else: the step
through the joined slice's own node was recorded after resetting the cursor, and
the side of the joined slice after a split was guessed from the position of the
remainder.
---
 src/tree/fix.rs    | 27 +++++++++++++-------------
 src/tree/insert.rs | 48 ++++++++++++----------------------------------
 2 files changed, 26 insertions(+), 49 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 4429444..db23e7b 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -502,6 +502,16 @@ where
         Self: 'm,
     {
         loop {
+            // Update the cursor
+            //
+            // Technically speaking, this relies on this node having `child_or_key =
+            // ChildOrKey::Child(_)` as long as the cursor is non-empty, but that should always be
+            // true. It has to come before `map_state`, so that the cursor can be redirected to a
+            // key in this node.
+            if let ChildOrKey::Child((child_idx, _)) = self.child_or_key {
+                self.cursor_builder.prepend_to_path(PathComponent { child_idx });
+            }
+
             self = self.map(&mut map_state);
 
             if let Some(ControlFlow::Break(())) = early_exit.as_mut().map(|f| f(&self)) {
@@ -519,11 +529,11 @@ where
     /// root
     ///
     /// Typically this method will not be used directly, and instead
-    pub(super) fn do_upward_step(mut self) -> Result<(), Self> {
+    pub(super) fn do_upward_step(self) -> Result<(), Self> {
         // The first part of the traversal step starts with repositioning all of the keys after
         // `self.child_or_key`.
 
-        let (mut node, first_key_after, maybe_child_idx, pos) = match self.child_or_key {
+        let (mut node, first_key_after, pos) = match self.child_or_key {
             ChildOrKey::Key((k_idx, node)) => {
                 let pos = self
                     .override_pos
@@ -531,7 +541,7 @@ where
                     // `k_idx` is within bounds.
                     .unwrap_or_else(|| unsafe { node.leaf().key_pos(k_idx) });
 
-                (node, k_idx + 1, None, pos)
+                (node, k_idx + 1, pos)
             }
             ChildOrKey::Child((c_idx, node)) => {
                 let pos = self.override_pos.unwrap_or_else(|| {
@@ -542,7 +552,7 @@ where
                     next_key_pos.sub_right(self.old_size)
                 });
 
-                (node.erase_type(), c_idx, Some(c_idx), pos)
+                (node.erase_type(), c_idx, pos)
             }
         };
 
@@ -562,15 +572,6 @@ where
 
         let new_size = node.leaf().subtree_size();
 
-        // Update the cursor
-        //
-        // Technically speaking, this relies on this node having `child_or_key =
-        // ChildOrKey::Child(_)` as long as the cursor is non-empty, but that should always be
-        // true.
-        if let Some(child_idx) = maybe_child_idx {
-            self.cursor_builder.prepend_to_path(PathComponent { child_idx });
-        }
-
         // Update `self` to the parent, if there is one. Otherwise, this is the root node so we
         // should return `Err` with the cursor and reference to the insertion.
         match node.into_parent().ok() {
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index c46429c..e319183 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,51 +1109,27 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
             if node.height() == lhs_height {
                 builder.reset();
             }
         };
 
-        let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
-            if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+        // If the node containing the left-hand slice was split, the slice is still the one at
+        // `lhs_k_idx` when counting through the left half, the midpoint, and the right half --
+        // everything that was inserted is to its right.
+        let mut map_cursor_side = |lhs: &ty![NodeHandle], side| {
+            if lhs.height() != lhs_height {
+                return side;
+            }
+
+            match lhs_k_idx.cmp(&lhs.leaf().len()) {
+                Ordering::Less => Some(Side::Left),
+                Ordering::Equal => None,
+                Ordering::Greater => Some(Side::Right),
             }
-            side
         };
 
         let mut mapper = MapBubbledInsertState {
-- 
2.43.0


From 4041ae07a65ac4d5a607f661dd25becc7850c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 07/12] fix: insert_ref returned a reference to the wrong slice
 after an internal split

An inserted slice that joined with a slice in an internal node was not followed
when inserting the remainder split that node.
---
 src/tree/insert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index e319183..3fa00a1 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2184,6 +2184,13 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // Signal that `parent` was split, as well. There are always `M` keys to the left of
+            // the midpoint -- including `self.key`, if that's where it was inserted. This has to
+            // wait until `self.key` has been put back, so that we only remove one slice at a time.
+            for upd in TraverseUpdate::split(&parent, parent.leaf().len(), &rhs.node) {
+                updates_callback(upd);
+            }
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
-- 
2.43.0


From 1db3563a7c23fa2867b5f7a822075c49790bf69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 08/12] fix: deserializing an entry without positive size
 panicked

---
 src/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..e246464 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,11 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom("slice size must be greater than zero"));
+            }
+
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From 33e83270d69c44abb3e232b16e68c886298f1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 09/12] fix: cloning an invalid SliceRef did not count the
 clone

Dropping it then underflowed the count or freed the store too early.
---
 src/tree/slice_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..182313c 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -844,11 +844,13 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
+        // Every `SliceRef` counts towards keeping the `InnerStore`, even if it's not valid.
+        bump_weak_count(&self.inner().weak_count);
+
         let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
-- 
2.43.0


From db245ae93ab291185fae4104bff7908e0bba56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 10/12] fix: using a SliceRef after dropping the tree panicked
 while a Borrow was alive

The store's references are emptied as soon as the tree is dropped, so the tree
counts as dropped for every SliceRef from then on.
---
 src/tree/slice_ref.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 182313c..924e960 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -499,16 +499,18 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
                 drop_if_zero: false,
             }),
             BorrowState::Mutable => Err(BorrowFailure::CannotGetImmutAlreadyMutablyBorrowed),
-            BorrowState::Immutable { mut count, drop_if_zero } => {
+            BorrowState::Immutable { mut count, drop_if_zero: false } => {
                 count = count
                     .checked_add(1)
                     .expect("there should be fewer than usize::MAX concurrent borrows");
 
-                Ok(BorrowState::Immutable { count, drop_if_zero })
-            }
-            BorrowState::Dropping | BorrowState::Dropped => {
-                Err(BorrowFailure::CannotGetImmutAlreadyDropped)
+                Ok(BorrowState::Immutable { count, drop_if_zero: false })
             }
+            // If the tree has been dropped, but it's waiting on some other borrow, then `refs` has
+            // already been emptied
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Dropping
+            | BorrowState::Dropped => Err(BorrowFailure::CannotGetImmutAlreadyDropped),
         };
 
         res.map(|new_state| {
@@ -521,10 +523,14 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     fn get_refs_without_borrow(&self) -> Option<&RefCell<RecycleVec<StoredSliceRef<I, S, M>>>> {
         let inner = self.inner();
         match inner.borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } | BorrowState::Mutable => {
-                Some(&inner.refs)
-            }
-            BorrowState::Dropping | BorrowState::Dropped => None,
+            BorrowState::NotBorrowed
+            | BorrowState::Immutable { drop_if_zero: false, .. }
+            | BorrowState::Mutable => Some(&inner.refs),
+            // `refs` is already emptied as soon as the tree is dropped, even if there's still some
+            // borrow keeping the contents of the tree alive
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Dropping
+            | BorrowState::Dropped => None,
         }
     }
 
@@ -655,8 +661,11 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     /// [`is_valid`]: Self::is_valid
     pub fn can_borrow(&self) -> bool {
         match self.inner().borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } => true,
-            BorrowState::Mutable | BorrowState::Dropping | BorrowState::Dropped => false,
+            BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. } => true,
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Mutable
+            | BorrowState::Dropping
+            | BorrowState::Dropped => false,
         }
     }
 
-- 
2.43.0


From 21f837a9edae721428b2c250a8a60cc0571d6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 11/12] fix: inserting into a node with a hole left by a panic
 moved the wrong values

A panic in Slice::split_at or Slice::try_join leaves a hole in the node.
A later insertion into that node shifted the values but not the hole, so
that a moved-out slice became readable and was dropped twice. Refuse the
insertion like Node::split and shallow_clone do.
---
 src/tree/node.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..a07382e 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2164,6 +2164,11 @@ where
             weak_assert!(self.leaf().len < self.leaf().max_len());
         }
 
+        // Shifting the values would make `holes` refer to the wrong ones
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let refid = UnsafeCell::new(<resolve![P::SliceRefStore::OptionRefId]>::default());
 
         let this_ptr = self.ptr;
@@ -2467,6 +2472,11 @@ where
             weak_assert!(self.height.as_u8() - 1 == child.height);
         }
 
+        // Shifting the values would make `holes` refer to the wrong ones
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let this_ptr = self.ptr;
         let height = self.height.as_u8();
         let pos = self.leaf().try_key_pos(key_idx).unwrap_or(self.leaf().total_size);
-- 
2.43.0


From 2e1b9136a2da037e6288a79a2a939db5ee67d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 12/12] hook: contract modules under cfg(kani)

---
 src/cursor.rs         | 6 ++++++
 src/range.rs          | 6 ++++++
 src/recycle.rs        | 6 ++++++
 src/tree/cow.rs       | 6 ++++++
 src/tree/entry.rs     | 6 ++++++
 src/tree/fix.rs       | 6 ++++++
 src/tree/insert.rs    | 6 ++++++
 src/tree/iter.rs      | 6 ++++++
 src/tree/mod.rs       | 6 ++++++
 src/tree/node.rs      | 6 ++++++
 src/tree/slice_ref.rs | 6 ++++++
 11 files changed, 66 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 141a847..727d595 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -224,3 +224,9 @@ impl<'c> CursorBuilder<'c> {
         }
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/cursor.rs"));
+}
diff --git a/src/range.rs b/src/range.rs
index 0f7dd19..b438cb8 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -296,3 +296,9 @@ impl_rangebounds!(Range: Included..Excluded);
 impl_rangebounds!(RangeFrom: Included..Unbounded);
 impl_rangebounds!(RangeTo: Unbounded..Excluded);
 impl_rangebounds!(RangeToInclusive: Unbounded..Included);
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/range.rs"));
+}
diff --git a/src/recycle.rs b/src/recycle.rs
index 8ebd6b1..9c394cc 100644
--- a/src/recycle.rs
+++ b/src/recycle.rs
@@ -256,3 +256,9 @@ impl<T> Value<T> {
         (v, e_id)
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/recycle.rs"));
+}
diff --git a/src/tree/cow.rs b/src/tree/cow.rs
index 4153b15..d53d79b 100644
--- a/src/tree/cow.rs
+++ b/src/tree/cow.rs
@@ -60,3 +60,9 @@ impl param::StrongCount for AtomicUsize {
         is_now_zero
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/cow.rs"));
+}
diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index fc51234..fa84c65 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -153,3 +153,9 @@ impl<'t, I, S, const M: usize> SliceEntry<'t, I, S, AllowSliceRefs, M> {
 
     fn_cursor!();
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/entry.rs"));
+}
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index db23e7b..19c892a 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -760,3 +760,9 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // (just like this function). This is already guaranteed by the caller.
     unsafe { node.set_key_poss_with(recalculate, from..) };
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/fix.rs"));
+}
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 3fa00a1..7152013 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2382,3 +2382,9 @@ where
         self
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/insert.rs"));
+}
diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index 2c3480a..d1c8216 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -670,3 +670,9 @@ where
         }
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/iter.rs"));
+}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index da4c07d..91c0b03 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -1192,3 +1192,9 @@ where
         number_of_slices
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/tree.rs"));
+}
diff --git a/src/tree/node.rs b/src/tree/node.rs
index a07382e..23728aa 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -3169,3 +3169,9 @@ where
         SliceHandle { node, idx }
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/node.rs"));
+}
diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 924e960..0fd33a0 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -1160,3 +1160,9 @@ impl<I, S, const M: usize> InnerStore<I, S, M> {
         }
     }
 }
+
+// Contracts for this module, checked with `cargo kani`
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("SHERMAN_VERIF_DIR"), "/slice_ref.rs"));
+}
-- 
2.43.0

