From 64ff7c136f8de6a745f69aa04dce6e712df45783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 01/16] fix: split a narrowed Focus relative to its own start

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..9c7fd12 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split = self.range.start + idx;
+        let first_range = self.range.start..split;
+        let second_range = split..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From dbc8caddbb5baad96d033bf5107679b0d36c396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 02/16] fix: keep Focus::narrow inside the parent range

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 9c7fd12..4b032cb 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 45f0177816ed9db143b5f40f69803a45201caf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 03/16] fix: forget the focused leaf range when a FocusMut
 drops its path

---
 src/focus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 4b032cb..292e57a 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -705,10 +705,9 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        self.leaf.take();
+        // The leaf range is also set when the root itself is a leaf, it must never outlive the root
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From 98c84e788f8ae1290c4d93242a93011020320a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 04/16] fix: allow a Focus on an empty range of a tree with an
 empty root

---
 src/focus.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/focus.rs b/src/focus.rs
index 292e57a..10c33fe 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -175,6 +175,13 @@ where
         let mut focus_range = 0..0;
         let mut spine_position = None;
         let mut focus_node = &tree.root;
+        if let (true, Some(leaf)) = (range.start >= range.end, tree.left_spine.first()) {
+            // No node intersects with an empty range. The root could be an empty internal node, so
+            // we focus on the first leaf instead.
+            focus_range = 0..leaf.len();
+            spine_position = Some((Side::Front, 0));
+            focus_node = leaf;
+        }
         for (node_position, node) in tree_iter {
             let range_start = range_end;
             range_end = range_start + node.len();
-- 
2.43.0


From 4163885cdd8af052329ebbe970e7d99b3315e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 05/16] fix: include the end of an inclusive range in
 equal_range searches

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..e7c4081 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 85088b130f1a6867066540a5c36dc7c24f5c4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 06/16] fix: return Err from equal_range searches of an empty
 range

---
 src/vector.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e7c4081..f04dfd4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1592,6 +1592,11 @@ where
             Bound::Unbounded => self.len,
         };
 
+        if start >= end {
+            // There is nothing to compare with in an empty range.
+            return Err(start);
+        }
+
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
-- 
2.43.0


From b5ba42eb416dec58e8dbe8ab8ec8978cd12acf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/16] fix: sort gathers pivot-equal items instead of
 recursing once per duplicate

---
 src/sort.rs | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..e0050ef 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,10 +102,26 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we move the items that are equal to
+    // it to the front and call sort again with the rest of the vector.
     if less_count == 0 {
-        do_single_sort(&mut rest, rng, comparator);
+        let mut equal_position = 0;
+        for index in 0..rest.len() {
+            if equal_position == equal_count {
+                break;
+            }
+            if comparator(rest.index(index), first.index(0)) == cmp::Ordering::Equal {
+                if index != equal_position {
+                    // Swap both positions of rest by going through first.
+                    mem::swap(first.index(0), rest.index(equal_position));
+                    mem::swap(first.index(0), rest.index(index));
+                    mem::swap(first.index(0), rest.index(equal_position));
+                }
+                equal_position += 1;
+            }
+        }
+        let (_, mut greater_focus) = rest.split_at(equal_position);
+        do_single_sort(&mut greater_focus, rng, comparator);
         return;
     }
 
@@ -280,10 +296,30 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we move the items that are equal to
+    // it to the front and call sort again with the rest of the vector.
     if less_count == 0 {
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
+        let mut equal_position = 0;
+        for index in 0..rest_focus.len() {
+            if equal_position == equal_count {
+                break;
+            }
+            if comparator(rest_focus.index(index), first_focus.index(0)) == cmp::Ordering::Equal {
+                if index != equal_position {
+                    // Swap both positions of rest by going through first.
+                    mem::swap(first_focus.index(0), rest_focus.index(equal_position));
+                    mem::swap(first_focus.index(0), rest_focus.index(index));
+                    mem::swap(first_focus.index(0), rest_focus.index(equal_position));
+                    mem::swap(first_dual.index(0), rest_dual.index(equal_position));
+                    mem::swap(first_dual.index(0), rest_dual.index(index));
+                    mem::swap(first_dual.index(0), rest_dual.index(equal_position));
+                }
+                equal_position += 1;
+            }
+        }
+        let (_, mut greater_focus) = rest_focus.split_at(equal_position);
+        let (_, mut greater_dual) = rest_dual.split_at(equal_position);
+        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
         return;
     }
 
-- 
2.43.0


From a7bf0a42e7dd2dbdf7b1ba2d97c718edac9f38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 08/16] hook: expose the tree shape to the verification harness
 under cfg(librrb_verif)

---
 src/lib.rs         |   3 +
 src/verif_hooks.rs | 190 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 193 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..45afee3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,6 +41,9 @@ mod sort;
 pub mod vector;
 pub mod focus;
 
+#[cfg(librrb_verif)]
+pub mod verif_hooks;
+
 #[doc(inline)]
 pub use vector::{InternalVector, Iter, IterMut};
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..ef90ef9
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,190 @@
+//! Read-only access to the shape of a vector's tree for an external verification harness. This is
+//! only compiled with `--cfg librrb_verif`.
+use crate::node_traits::{Entry, InternalTrait, LeafTrait, NodeRc, NodeRef};
+use crate::vector::InternalVector;
+use crate::RRB_WIDTH;
+
+/// A summary of the shape of a tree.
+#[derive(Clone, Copy, Debug, Default, PartialEq)]
+pub struct Shape {
+    /// The level of the root.
+    pub height: usize,
+    /// The number of internal nodes.
+    pub internals: usize,
+    /// The number of leaves that hold at least one element.
+    pub leaves: usize,
+    /// The number of nodes below the spines and root that have less than `RRB_WIDTH` slots.
+    pub partial: usize,
+    /// Whether the root is an internal node without any children.
+    pub empty_root: bool,
+    /// The number of internal nodes in the spines without any children.
+    pub empty_spine_nodes: usize,
+}
+
+fn walk<Internal: InternalTrait>(
+    node: NodeRef<'_, Internal>,
+    level: usize,
+    top: bool,
+    shape: &mut Shape,
+) -> Result<usize, String> {
+    let slots = match node {
+        NodeRef::Leaf(leaf) => {
+            let leaf = leaf.load();
+            if level != 0 {
+                return Err(format!("a leaf was found at level {}", level));
+            }
+            let len = leaf.len();
+            if len > RRB_WIDTH || leaf.free_space() != RRB_WIDTH - len {
+                return Err(format!("leaf of {} with {} free", len, leaf.free_space()));
+            }
+            for i in 0..len {
+                if leaf.get(i).is_none() {
+                    return Err(format!("leaf of {} has no element {}", len, i));
+                }
+            }
+            if leaf.get(len).is_some() {
+                return Err(format!("leaf of {} has an element past its end", len));
+            }
+            if len != 0 {
+                shape.leaves += 1;
+            }
+            (len, len)
+        }
+        NodeRef::Internal(internal) => {
+            let internal = internal.load();
+            shape.internals += 1;
+            if level == 0 || internal.level() != level {
+                return Err(format!(
+                    "an internal node of level {} was found at level {}",
+                    internal.level(),
+                    level
+                ));
+            }
+            let slots = internal.slots();
+            if slots > RRB_WIDTH || internal.free_slots() != RRB_WIDTH - slots {
+                return Err(format!(
+                    "internal node of {} slots with {} free",
+                    slots,
+                    internal.free_slots()
+                ));
+            }
+            let mut len = 0;
+            for slot in 0..slots {
+                let (child, range) = match internal.get_child_ref_at_slot(slot) {
+                    Some(child) => child,
+                    None => return Err(format!("node of {} slots has no child {}", slots, slot)),
+                };
+                let child_len = walk(child, level - 1, false, shape)?;
+                if range != (len..len + child_len) {
+                    return Err(format!(
+                        "size table of a level {} node has {:?} for child {} which covers {:?}",
+                        level,
+                        range,
+                        slot,
+                        len..len + child_len
+                    ));
+                }
+                len += child_len;
+            }
+            if internal.len() != len {
+                return Err(format!(
+                    "node reports {} elements but has {}",
+                    internal.len(),
+                    len
+                ));
+            }
+            (slots, len)
+        }
+    };
+    if !top {
+        if slots.0 == 0 {
+            return Err(format!("an empty node was found inside the tree at level {}", level));
+        }
+        if slots.0 != RRB_WIDTH {
+            shape.partial += 1;
+        }
+    }
+    Ok(slots.1)
+}
+
+fn as_ref<Internal: InternalTrait>(node: &NodeRc<Internal>) -> NodeRef<'_, Internal> {
+    match node {
+        NodeRc::Leaf(leaf) => NodeRef::Leaf(leaf),
+        NodeRc::Internal(internal) => NodeRef::Internal(internal),
+    }
+}
+
+impl<Internal> InternalVector<Internal>
+where
+    Internal: InternalTrait,
+{
+    /// Checks the documented invariants of the tree and returns its shape.
+    pub fn verif_shape(&self) -> Result<Shape, String> {
+        let mut shape = Shape::default();
+        if self.left_spine.len() != self.right_spine.len() {
+            return Err(format!(
+                "invariant 1: spines of {} and {} nodes",
+                self.left_spine.len(),
+                self.right_spine.len()
+            ));
+        }
+        let height = self.left_spine.len();
+        shape.height = height;
+        let mut total = 0;
+        for (name, spine) in [("left", &self.left_spine), ("right", &self.right_spine)].iter() {
+            for (level, node) in spine.iter().enumerate() {
+                total += walk(as_ref(node), level, true, &mut shape)
+                    .map_err(|e| format!("{} spine level {}: {}", name, level, e))?;
+                if level == 0 {
+                    if node.slots() == 0 {
+                        return Err(format!("invariant 3: the {} spine's leaf is empty", name));
+                    }
+                } else {
+                    if node.slots() == 0 {
+                        shape.empty_spine_nodes += 1;
+                    }
+                    if node.free_slots() < 1 {
+                        return Err(format!(
+                            "invariant 2: level {} of the {} spine is full",
+                            level, name
+                        ));
+                    }
+                }
+            }
+        }
+        total += walk(as_ref(&self.root), height, true, &mut shape)
+            .map_err(|e| format!("root: {}", e))?;
+        if height > 0 {
+            if self.root.free_slots() < 2 {
+                return Err(format!(
+                    "invariant 4: the root has {} free slots",
+                    self.root.free_slots()
+                ));
+            }
+            if self.root.slots() == 0 {
+                shape.empty_root = true;
+                let left = self.left_spine[height - 1].slots();
+                let right = self.right_spine[height - 1].slots();
+                let mergeable = if height == 1 {
+                    left + right < RRB_WIDTH
+                } else {
+                    left + right < RRB_WIDTH - 2
+                };
+                if mergeable || left > right + 1 || right > left + 1 {
+                    return Err(format!(
+                        "invariant 5: spine tops of {} and {} slots below an empty root",
+                        left, right
+                    ));
+                }
+            }
+        }
+        if total != self.len() {
+            return Err(format!(
+                "the vector reports {} elements but the tree has {}",
+                self.len(),
+                total
+            ));
+        }
+        Ok(shape)
+    }
+}
-- 
2.43.0


From 3a43de9f226602b396499c448745cfe7b2473f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 09/16] fix: Focus::get of a huge index on a narrowed focus
 yields None

The index was added to the start of the range unchecked, which panicked with
an overflow in a debug build instead of yielding nothing.
---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 10c33fe..0def77d 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -267,7 +267,7 @@ where
     /// assert_eq!(focus.get(3), None);
     /// ```
     pub fn get(&mut self, idx: usize) -> Option<&<Internal::Leaf as LeafTrait>::Item> {
-        let new_idx = idx + self.range.start;
+        let new_idx = idx.checked_add(self.range.start)?;
         if self.range.contains(&new_idx) {
             if !self.focus_range.contains(&new_idx) {
                 self.refocus(new_idx);
-- 
2.43.0


From 8eea928960ca5982e65aa3dbf95cd7eddc244131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 10/16] hook: narrow nodes under cfg librrb_verif_narrow

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 45afee3..fefbf21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,13 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(librrb_verif_narrow))]
 pub const RRB_WIDTH: usize = 64;
 
+/// Narrow nodes, for a verification build in which a few elements make a tall tree.
+#[cfg(librrb_verif_narrow)]
+pub const RRB_WIDTH: usize = 8;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
-- 
2.43.0


From 91fd65685784582da7d43150acf2e5490a2a44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 11/16] fix: merge along the seam when appending, so the height
 stays logarithmic

Appending turned the spines that met into children of the root without
merging them with their neighbours. Every concatenation took up a slot of
the root, so that the height grew by one for about each 62 concatenations
and inserting into the middle 36,000 times took 2 ms per insertion.
---
 src/node_traits.rs | 35 ++++++++++++++++++++++++++++++++++-
 src/vector.rs      |  6 ++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/node_traits.rs b/src/node_traits.rs
index 2223114..d6dd919 100644
--- a/src/node_traits.rs
+++ b/src/node_traits.rs
@@ -1,4 +1,4 @@
-use crate::Side;
+use crate::{Side, RRB_WIDTH};
 use std::fmt::Debug;
 use std::ops::{Deref, DerefMut, Range};
 
@@ -379,6 +379,39 @@ where
         }
     }
 
+    /// Merges the outermost child of `self` at the given side into the child next to it.
+    pub fn merge_outermost_children(&mut self, side: Side) {
+        if self.is_leaf() || self.slots() < 2 {
+            return;
+        }
+        let mut node = self.internal_mut().load_mut();
+        let mut outer = node.pop_child(side);
+        let mut inner = node.pop_child(side);
+        outer.merge_into(&mut inner, side);
+        node.push_child(side, inner);
+        if !outer.is_empty() {
+            node.push_child(side, outer);
+        }
+    }
+
+    /// Moves as much as possible of `self` into `inner`, the node of the same level next to it.
+    /// `side` is the side of `inner` that `self` lies on. The nodes are merged at every level along
+    /// the seam, starting from the leaves.
+    fn merge_into(&mut self, inner: &mut Self, side: Side) {
+        if !self.is_leaf() {
+            let mut outer_node = self.internal_mut().load_mut();
+            let mut inner_node = inner.internal_mut().load_mut();
+            let mut outer_child = outer_node.pop_child(side.negate());
+            let mut inner_child = inner_node.pop_child(side);
+            outer_child.merge_into(&mut inner_child, side);
+            inner_node.push_child(side, inner_child);
+            if !outer_child.is_empty() {
+                outer_node.push_child(side.negate(), outer_child);
+            }
+        }
+        self.share_children_with(inner, side.negate(), RRB_WIDTH);
+    }
+
     /// Returns the size of the of node.
     pub fn len(&self) -> usize {
         match self {
diff --git a/src/vector.rs b/src/vector.rs
index f04dfd4..cc7f72e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1079,6 +1079,12 @@ where
         debug_assert!(other.left_spine.is_empty());
         self.right_spine = other.right_spine;
 
+        // The spines that met have become children of the roots. They may hold next to nothing, so
+        // they are merged with their neighbours. Otherwise, every concatenation would use up a slot
+        // of the root and the height would grow linearly in the number of concatenations.
+        self.root.merge_outermost_children(Side::Back);
+        other.root.merge_outermost_children(Side::Front);
+
         other
             .root
             .share_children_with(&mut self.root, Side::Front, RRB_WIDTH);
-- 
2.43.0


From 51c9e40e479676926d9e9752fd96bdb39cfa8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 12/16] hook: nodes of 4 slots under cfg librrb_verif_tiny

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fefbf21..5bb121a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,13 +54,17 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
-#[cfg(not(librrb_verif_narrow))]
+#[cfg(not(any(librrb_verif_narrow, librrb_verif_tiny)))]
 pub const RRB_WIDTH: usize = 64;
 
 /// Narrow nodes, for a verification build in which a few elements make a tall tree.
 #[cfg(librrb_verif_narrow)]
 pub const RRB_WIDTH: usize = 8;
 
+/// The same with still narrower nodes.
+#[cfg(librrb_verif_tiny)]
+pub const RRB_WIDTH: usize = 4;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
-- 
2.43.0


From 5d63d643abd429274bdf14dc6904506830b8885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:36 +0000
Subject: [PATCH 13/16] fix: mutable foci leaked the size tables of the nodes
 they borrowed

A borrowed node held a counted reference to the size table of its node,
and dropping a mutable focus forgets its borrowed nodes. Each mutable
focus or iterator leaked a table for each inner node at the top of the
tree. Borrowed nodes now point to the table without owning it, as they do
to the children.
---
 src/node_impls/basic.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..9ced0ac 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -212,7 +212,9 @@ impl<A: Clone + std::fmt::Debug> LeafTrait for Leaf<A> {
 }
 
 pub struct BorrowedInternal<Leaf: LeafTrait, P: SharedPointerKind> {
-    pub(crate) sizes: SharedPointer<SizeTable, P>,
+    /// The size table of the borrowed node. The node owns it for as long as it is borrowed. Borrowed
+    /// nodes may be forgotten rather than dropped, so they must not own anything themselves.
+    pub(crate) sizes: DerefPtr<SizeTable>,
     pub(crate) children: BorrowedChildList<Leaf, P>,
 }
 
@@ -229,7 +231,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> Drop for BorrowedInternal<Leaf, P> {
 impl<Leaf: LeafTrait, P: SharedPointerKind> Clone for BorrowedInternal<Leaf, P> {
     fn clone(&self) -> Self {
         BorrowedInternal {
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: DerefPtr(self.sizes.0),
             children: self.children.clone(),
         }
     }
@@ -341,11 +343,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         (
             BorrowedInternal {
                 children: left,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: DerefPtr(self.sizes.0),
             },
             BorrowedInternal {
                 children: right,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: DerefPtr(self.sizes.0),
             },
         )
     }
@@ -757,7 +759,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
     fn borrow_node(&mut self) -> Self::Borrowed {
         BorrowedInternal {
             children: self.children.borrow(),
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: DerefPtr(&*self.sizes),
         }
     }
 
-- 
2.43.0


From 8ff8d0a70950262bce12f01fdd5419d4ea14dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:03 +0000
Subject: [PATCH 14/16] fix: range bounds at usize::MAX no longer overflow or
 wrap to an empty range

---
 src/focus.rs  |  4 ++--
 src/vector.rs | 32 ++++++++++++++++----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0def77d..5cb59ef 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,11 +334,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         if range_end > self.len() {
diff --git a/src/vector.rs b/src/vector.rs
index cc7f72e..e98c343 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1175,11 +1175,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
 
@@ -1407,11 +1407,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         range_start..range_end
@@ -1456,12 +1456,12 @@ where
     {
         let mut start = match range.start_bound() {
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
             Bound::Unbounded => 0,
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1588,12 +1588,12 @@ where
     {
         let mut start = match range.start_bound() {
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
             Bound::Unbounded => 0,
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1827,11 +1827,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1875,11 +1875,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1919,11 +1919,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1967,11 +1967,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let comp = |x: &<Internal::Leaf as LeafTrait>::Item,
-- 
2.43.0


From dbf449b281dbd2f843021eabcc4a8b4e4d7ace50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 15/16] fix: refuse inverted ranges when narrowing a Focus

---
 src/focus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 5cb59ef..72aca21 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -295,7 +295,7 @@ where
     /// assert_eq!(Focus::narrowed_tree(&v, 3..3).len(), 0);
     /// ```
     pub fn len(&self) -> usize {
-        self.range.end - self.range.start
+        self.range.len()
     }
 
     /// Tests whether no elements are accessible through the focus.
@@ -341,7 +341,7 @@ where
             Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.len() {
+        if range_start > range_end || range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 2bf8b5b5517f33cfcea245b5e930afaf38c01f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:47 +0000
Subject: [PATCH 16/16] fix: a panicking Clone in a push or pop no longer loses
 elements or leaves a wrong length

---
 src/vector.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e98c343..9d615fd 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -547,9 +547,12 @@ where
             let new_root = NodeRc::Internal(Internal::InternalEntry::new(
                 Internal::empty_internal(self.root.level() + 1),
             ));
-            let mut new_node = mem::replace(&mut self.root, new_root);
-            let mut other_new_node = new_node.new_empty();
-            new_node.share_children_with(&mut other_new_node, side.negate(), RRB_WIDTH / 2);
+            // The elements of a shared root leaf are cloned here, so it stays in the tree until
+            // nothing can panic anymore.
+            let mut other_new_node = self.root.new_empty();
+            self.root
+                .share_children_with(&mut other_new_node, side.negate(), RRB_WIDTH / 2);
+            let new_node = mem::replace(&mut self.root, new_root);
             spine.push(new_node);
             other_spine.push(other_new_node);
         } else if self.root.slots() == 0 {
@@ -698,10 +701,11 @@ where
                 // Part 1) of invariant 5 is broken, we merge into a single node decreasing the
                 // tree's height by 1. Invariant 5 might be broken with the new root so we need to
                 // continue checking.
-                let mut left_spine_top = self.left_spine.pop().unwrap();
-                let mut right_spine_top = self.right_spine.pop().unwrap();
-                left_spine_top.share_children_with(&mut right_spine_top, Side::Back, RRB_WIDTH);
-                self.root = right_spine_top;
+                // The elements of shared leaves are cloned here, so the nodes stay in the tree until
+                // nothing can panic anymore.
+                left_spine_top.share_children_with(right_spine_top, Side::Back, RRB_WIDTH);
+                self.left_spine.pop();
+                self.root = self.right_spine.pop().unwrap();
             } else if difference >= 2 {
                 // Part 2) of invariant 5 is broken, we might need to share children between the
                 // left and right spines. We are also guaranteed to have invariant 5 fulfilled
@@ -726,8 +730,9 @@ where
         debug_assert_eq!(self.left_spine.len(), self.right_spine.len());
         if self.spine_ref(side).is_empty() {
             if !self.root.is_empty() {
+                let item = self.root.leaf_mut().load_mut().pop(side);
                 self.len -= 1;
-                Some(self.root.leaf_mut().load_mut().pop(side))
+                Some(item)
             } else {
                 None
             }
@@ -746,6 +751,7 @@ where
                     .leaf_mut(),
             };
             let item = leaf.load_mut().pop(side);
+            self.len -= 1;
 
             if leaf.load().is_empty() {
                 self.empty_leaf(side);
@@ -753,7 +759,6 @@ where
                 self.fixup_spine_tops();
             }
 
-            self.len -= 1;
             Some(item)
         }
     }
-- 
2.43.0

