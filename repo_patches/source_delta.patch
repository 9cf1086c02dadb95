From 9f628569dfa6d95bbfab0ce0aa9e8e34061ab702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 01/12] fix: join boolean-op edges at a vertex only when their
 directions agree

Rings::add_edge matched the open ends of chains by their position alone.
At a vertex where four or more output edges meet, this could join two
edges that both arrive at (or both depart from) the vertex, producing
rings with inconsistent orientation: a failed debug_assert in debug
builds, and otherwise a hole reported as an exterior (or vice-versa).
---
 src/bops/rings.rs | 62 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..4585229 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -8,7 +8,13 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    /// Open ends of the chains. Two edges meeting at a vertex may
+    /// only be joined if one of them arrives there, and the other
+    /// departs, when both are traversed with the region on the same
+    /// side. Hence, the open ends at a point are keyed also by
+    /// their direction; more than two edges may meet at a vertex, so
+    /// there may be many in either direction.
+    end_points: BTreeMap<(SweepPoint<T>, Direction), Vec<Link>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -95,9 +101,17 @@ impl<T: GeoFloat> Rings<T> {
         let left = geom.first();
         let right = geom.second();
 
+        // Directions at `left` and `right` when the edge is traversed
+        // in counter-clockwise winding.
+        let (ldir, rdir) = if matches!(winding, WindingOrder::CounterClockwise) {
+            (Direction::Departs, Direction::Arrives)
+        } else {
+            (Direction::Arrives, Direction::Departs)
+        };
+
         let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
+            self.take_end_point(left, ldir.inverse()),
+            self.take_end_point(right, rdir.inverse()),
         );
 
         match (le, re) {
@@ -105,15 +119,17 @@ impl<T: GeoFloat> Rings<T> {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.insert_end_point(
                     left,
+                    ldir,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.insert_end_point(
                     right,
+                    rdir,
                     Link {
                         idx,
                         to_front: false,
@@ -124,30 +140,36 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.insert_end_point(left, ldir, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.insert_end_point(right, rdir, i);
                 trace!("\tadded to {i:?}: {right:?}");
-
             }
             (Some(i), Some(j)) => {
                 // Since both end points matched, we don't
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    fn take_end_point(&mut self, pt: SweepPoint<T>, dir: Direction) -> Option<Link> {
+        self.end_points.get_mut(&(pt, dir)).and_then(|links| links.pop())
+    }
+
+    fn insert_end_point(&mut self, pt: SweepPoint<T>, dir: Direction, link: Link) {
+        self.end_points
+            .entry((pt, dir))
+            .or_insert_with(Vec::new)
+            .push(link);
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
@@ -256,3 +278,19 @@ struct Link {
     idx: usize,
     to_front: bool,
 }
+
+/// Direction of a directed edge at one of its end points.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+enum Direction {
+    Arrives,
+    Departs,
+}
+
+impl Direction {
+    fn inverse(self) -> Self {
+        match self {
+            Direction::Arrives => Direction::Departs,
+            Direction::Departs => Direction::Arrives,
+        }
+    }
+}
-- 
2.43.0


From 9b2f5ba71caf936934490a417e7a14b564c7faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 02/12] fix: tear down splay trees without recursing into the
 children

A splay tree may be as deep as its number of nodes (e.g. after inserting
in sorted order). Dropping or clearing it, or dropping its IntoIter, ran
the recursive drop glue of the nodes and overflowed the stack.
---
 src/splay/tree.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..2b3cce7 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,8 +34,13 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
-        self.size = 0;
+        // The tree may be as deep as it has nodes. The iterator drops
+        // the nodes one by one instead of recursing into the children.
+        let iter = IntoIter {
+            cur: self.root_mut().take(),
+            remaining: mem::replace(&mut self.size, 0),
+        };
+        drop(iter);
     }
 
     pub fn contains(&self, key: &K) -> bool {
@@ -390,6 +395,12 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        while self.next().is_some() {}
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From d2dd554ee5d0a6a15c19a1cc96c0cf47598a901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 03/12] fix: keep splay trees intact when the comparator panics

Splaying called the comparator while nodes were detached from the tree.
A panicking comparator lost those nodes, even on a shared-reference
lookup: len() no longer matched the contents, and references handed out
before dangled. Compare along the search path first, and restructure
the tree only afterwards.
---
 src/splay/tree.rs | 59 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 2b3cce7..37a0843 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -1,4 +1,5 @@
 use super::node::Node;
+use smallvec::SmallVec;
 use std::cell::UnsafeCell;
 use std::cmp::Ordering;
 use std::fmt;
@@ -200,12 +201,21 @@ where
             }
         }
 
+        // Call the comparator before detaching anything: it may panic.
+        let path = match *self.root_mut() {
+            Some(ref root) => root
+                .left
+                .as_ref()
+                .map(|left| search_path(key, left, &self.comparator)),
+            None => None,
+        };
+
         let Node { left, right, value, .. } = *self.root_mut().take().unwrap();
 
         *self.root_mut() = match left {
             None => right,
             Some(mut node) => {
-                splay(key, &mut node, &self.comparator);
+                splay_path(&path.unwrap(), &mut node);
                 node.right = right;
                 Some(node)
             }
@@ -401,15 +411,49 @@ impl<K, V> Drop for IntoIter<K, V> {
     }
 }
 
+/// Result of comparing a key against the nodes along its search path.
+type SearchPath = SmallVec<[Ordering; 64]>;
+
+/// Compares `key` against the nodes along the search path starting at `node`.
+fn search_path<K, V, C>(key: &K, mut node: &Node<K, V>, comparator: &C) -> SearchPath
+where
+    C: Fn(&K, &K) -> Ordering,
+{
+    let mut path = SearchPath::new();
+    loop {
+        let ord = comparator(key, &node.key);
+        path.push(ord);
+        let child = match ord {
+            Ordering::Equal => return path,
+            Ordering::Less => &node.left,
+            Ordering::Greater => &node.right,
+        };
+        match child {
+            Some(child) => node = child,
+            None => return path,
+        }
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
 /// root. Otherwise the closest key to the specified key will be at the root.
+///
+/// The comparator is only called before the tree is modified; the tree is left
+/// as it is if the comparator panics.
 #[allow(clippy::borrowed_box)]
 fn splay<K, V, C>(key: &K, node: &mut Box<Node<K, V>>, comparator: &C)
 where
     C: Fn(&K, &K) -> Ordering,
 {
+    let path = search_path(key, node, comparator);
+    splay_path(&path, node);
+}
+
+/// Splays the last node of `path`, a search path starting at `node`.
+#[allow(clippy::borrowed_box)]
+fn splay_path<K, V>(path: &[Ordering], node: &mut Box<Node<K, V>>) {
     let mut newleft = None;
     let mut newright = None;
 
@@ -420,8 +464,11 @@ where
         let mut l = &mut newright;
         let mut r = &mut newleft;
 
+        // Depth of `node` in the search path.
+        let mut depth = 0;
+
         loop {
-            match comparator(key, &node.key) {
+            match path[depth] {
                 // Found it, yay!
                 Ordering::Equal => break,
 
@@ -431,7 +478,8 @@ where
                         None => break,
                     };
                     // rotate this node right if necessary
-                    if comparator(key, &left.key) == Ordering::Less {
+                    depth += 1;
+                    if path[depth] == Ordering::Less {
                         // A bit odd, but avoids drop glue
                         mem::swap(&mut node.left, &mut left.right);
                         mem::swap(&mut left, node);
@@ -439,6 +487,7 @@ where
                         match mem::replace(&mut node.left, none) {
                             Some(l) => {
                                 left = l;
+                                depth += 1;
                             }
                             None => break,
                         }
@@ -457,13 +506,15 @@ where
                         None => break,
                     };
 
-                    if comparator(key, &right.key) == Ordering::Greater {
+                    depth += 1;
+                    if path[depth] == Ordering::Greater {
                         mem::swap(&mut node.right, &mut right.left);
                         mem::swap(&mut right, node);
                         let none = mem::replace(&mut node.left, Some(right));
                         match mem::replace(&mut node.right, none) {
                             Some(r) => {
                                 right = r;
+                                depth += 1;
                             }
                             None => break,
                         }
-- 
2.43.0


From 7b6c12c6761e2a1d2e53794d9176dbe66a586cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 04/12] fix: do not let rounding turn a scanned trapezoid
 upside down

Near a point shared by the top and bottom chains, the interpolated top
could be rounded below the bottom. Rasterizing such a trapezoid with
cross_area panicked.
---
 src/monotone/mono_poly.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/monotone/mono_poly.rs b/src/monotone/mono_poly.rs
index 0643181..c7befe0 100644
--- a/src/monotone/mono_poly.rs
+++ b/src/monotone/mono_poly.rs
@@ -254,15 +254,13 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                 (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
             }
         };
+        // Near a point shared by the two chains, the interpolated top may
+        // be rounded below the bottom (or vice-versa). Hence, we clamp the
+        // interpolated value with the other one.
         if until < new_x {
-            Some((
-                None,
-                Trip {
-                    x: until,
-                    top: interpolate(top[self.top_idx], new_top, until),
-                    bot: interpolate(bot[self.bot_idx], new_bot, until),
-                },
-            ))
+            let top = interpolate(top[self.top_idx], new_top, until);
+            let bot = interpolate(bot[self.bot_idx], new_bot, until).min(top);
+            Some((None, Trip { x: until, top, bot }))
         } else {
             match ord {
                 Ordering::Less => Some((
@@ -270,7 +268,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Trip {
                         x: new_top.x,
                         top: new_top.y,
-                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
+                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x).min(new_top.y),
                     },
                 )),
                 Ordering::Equal => Some((
@@ -285,7 +283,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Some(ord),
                     Trip {
                         x: new_bot.x,
-                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
+                        top: interpolate(top[self.top_idx], new_top, new_bot.x).max(new_bot.y),
                         bot: new_bot.y,
                     },
                 )),
-- 
2.43.0


From 2122e59525e7e1c48d9fe128e43fe21acc642ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 05/12] fix: do not preallocate for the upper bound of the
 input size hint

The upper bound may be arbitrarily loose (e.g. for a filtered range):
collecting a few segments from such an iterator tried to allocate
16 times the bound and aborted or panicked.
---
 src/crossings.rs       | 6 ++----
 src/crossings/sweep.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..42eb275 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,8 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // Use the lower bound: the upper one may be arbitrarily loose.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..93f4f71 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,8 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // Use the lower bound: the upper one may be arbitrarily loose.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0


From bafb1349d8e02bc44b2a1af31a86894355cccc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 06/12] fix: do not yield an overlapping pair of inputs twice

---
 src/crossings.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 42eb275..0c7747d 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -292,12 +292,36 @@ where
             let int = line_intersection(si.line(), sj.line())
                 .expect("line_intersection returned `None` disagreeing with `CrossingsIter`");
 
-            Some((si, sj, int))
+            // An input that starts here on top of another one which
+            // extends to the left is reported with the overlapping
+            // pieces; do not report the pair again with the piece of
+            // the other input that ends here.
+            let is_repeat = match int {
+                LineIntersection::Collinear { intersection } => {
+                    intersection.start != intersection.end
+                        && self.is_start(self.idx) != self.is_start(self.jdx)
+                        && (self.starts_overlap(self.idx) || self.starts_overlap(self.jdx))
+                }
+                _ => false,
+            };
+            (!is_repeat).then(|| (si, sj, int))
         } else {
             None
         }
     }
 
+    /// Whether the piece at `idx` starts here.
+    fn is_start(&self, idx: usize) -> bool {
+        self.inner.intersections()[idx].at_left
+    }
+
+    /// Whether the piece at `idx` starts here, and overlaps another one.
+    fn starts_overlap(&self, idx: usize) -> bool {
+        let segments = self.inner.intersections();
+        segments[idx].at_left
+            && (segments[idx].has_overlap || (idx > 0 && segments[idx - 1].has_overlap))
+    }
+
     fn step(&mut self) -> bool {
         let seg_len = self.inner.intersections_mut().len();
         if 1 + self.jdx < seg_len {
-- 
2.43.0


From 36e11ff34e847b45a5eb828e331e3a420ab6c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 07/12] fix: keep the order of overlapping edges at a vertex

With more than 20 edges at a vertex, the unstable sort may move an edge
that overlaps an active one in front of it. The region below was then
looked up from a segment that is not active, and the sweep panicked in
Rings::finish or returned the wrong region.
---
 src/bops/op.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bops/op.rs b/src/bops/op.rs
index 1f2064d..441d917 100644
--- a/src/bops/op.rs
+++ b/src/bops/op.rs
@@ -74,7 +74,10 @@ impl<T: Float> Op<T> {
                     }
                 })
             }
-            iter.intersections_mut().sort_unstable_by(compare_crossings);
+            // Overlapping edges compare equal, and only the first one
+            // reported is an active segment: the sort must be stable for
+            // the `prev_active` query below to start from that one.
+            iter.intersections_mut().sort_by(compare_crossings);
 
             // Process all end-segments.
             let mut idx = 0;
-- 
2.43.0


From 166d963a72f348bc2782b1b1ec20c1e6f2d3a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 08/12] fix: keep the splay tree whole when the destructor of a
 removed key panics

---
 src/splay/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 37a0843..9aeb3de 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -210,7 +210,7 @@ where
             None => None,
         };
 
-        let Node { left, right, value, .. } = *self.root_mut().take().unwrap();
+        let Node { key: removed, value, left, right } = *self.root_mut().take().unwrap();
 
         *self.root_mut() = match left {
             None => right,
@@ -222,6 +222,9 @@ where
         };
 
         self.size -= 1;
+
+        // Drop the key now that the tree is whole again: this may panic.
+        drop(removed);
         Some(value)
     }
 
-- 
2.43.0


From bf2c11242eeed6607f179e21d9246cae8f01258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 09/12] fix: keep repeated neighbour lookups in the splay tree
 cheap

---
 src/splay/tree.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 9aeb3de..f165daa 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -99,6 +99,11 @@ where
         let mut node: &Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
                 splay(key, root, &self.comparator);
+                // The successor is there if it is not the root: bring it up too,
+                // so that finding it again is cheap.
+                if let Some(ref mut right) = root.right {
+                    splay(key, right, &self.comparator);
+                }
                 root
             }
             None => return None,
@@ -130,6 +135,11 @@ where
         let mut node: &Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
                 splay(key, root, &self.comparator);
+                // The predecessor is there if it is not the root: bring it up
+                // too, so that finding it again is cheap.
+                if let Some(ref mut left) = root.left {
+                    splay(key, left, &self.comparator);
+                }
                 root
             }
             None => return None,
-- 
2.43.0


From 16d2a5028bda0a84c4f55fd510b78ba8cd05481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 10/12] fix: drop the rest of a splay tree iteratively when a
 destructor panics

Dropping, clearing, or dropping a partly consumed iterator of a tree goes
through the entries one by one. If the destructor of one of them panics, the
remaining nodes were dropped as part of unwinding, recursively, which overflows
the stack if the tree is deep. Go on with them one by one instead.
---
 src/splay/tree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index f165daa..331dff9 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -420,7 +420,17 @@ impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
 impl<K, V> Drop for IntoIter<K, V> {
     fn drop(&mut self) {
-        while self.next().is_some() {}
+        // Goes on with the other entries if dropping one of them panics:
+        // left to themselves, the nodes drop their children recursively.
+        struct Guard<'a, K, V>(&'a mut IntoIter<K, V>);
+        impl<'a, K, V> Drop for Guard<'a, K, V> {
+            fn drop(&mut self) {
+                while self.0.next().is_some() {}
+            }
+        }
+
+        let guard = Guard(self);
+        while guard.0.next().is_some() {}
     }
 }
 
-- 
2.43.0


From ab97563f0b10d0072ec855dcd039b9b73ca69222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 11/12] fix: keep lookups made from within a lookup from moving
 the nodes of the splay tree

A comparator (or a Debug impl) that looks something up in the tree it is
called from made the inner lookup splay nodes the outer one was working on:
wrong answers, or a dangling pointer.
---
 src/splay/tree.rs | 79 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 11 deletions(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 331dff9..a55efac 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -1,6 +1,6 @@
 use super::node::Node;
 use smallvec::SmallVec;
-use std::cell::UnsafeCell;
+use std::cell::{Cell, UnsafeCell};
 use std::cmp::Ordering;
 use std::fmt;
 use std::mem;
@@ -13,6 +13,24 @@ where
     comparator: C,
     root: UnsafeCell<Option<Box<Node<K, V>>>>,
     size: usize,
+    /// Is a lookup through a shared reference under way?
+    in_lookup: Cell<bool>,
+}
+
+/// Marks a lookup through a shared reference.
+///
+/// User code called from a lookup (the comparator, or a `Debug` impl) may look
+/// something up in the same tree. Such a nested lookup must not move the nodes
+/// the outer one is working on.
+struct Lookup<'a> {
+    in_lookup: &'a Cell<bool>,
+    is_nested: bool,
+}
+
+impl<'a> Drop for Lookup<'a> {
+    fn drop(&mut self) {
+        self.in_lookup.set(self.is_nested);
+    }
 }
 
 impl<K, V, C> SplayTree<K, V, C>
@@ -24,6 +42,7 @@ where
             comparator,
             root: UnsafeCell::new(None),
             size: 0,
+            in_lookup: Cell::new(false),
         }
     }
     pub fn len(&self) -> usize {
@@ -49,6 +68,11 @@ where
     }
 
     pub fn get(&self, key: &K) -> Option<&V> {
+        let lookup = self.start_lookup();
+        if lookup.is_nested {
+            return self.search(key).map(|node| &node.value);
+        }
+
         // Splay trees are self-modifying, which is the cause of this ugly mess
         match self.root_mut() {
             Some(ref mut root) => {
@@ -80,6 +104,11 @@ where
     }
 
     pub fn find_key(&self, key: &K) -> Option<&K> {
+        let lookup = self.start_lookup();
+        if lookup.is_nested {
+            return self.search(key).map(|node| &node.key);
+        }
+
         // Splay trees are self-modifying, which is the cause of this ugly mess
         match self.root_mut() {
             Some(ref mut root) => {
@@ -95,14 +124,18 @@ where
     }
 
     pub fn next(&self, key: &K) -> Option<(&K, &V)> {
+        let lookup = self.start_lookup();
+
         // Splay trees are self-modifying, which is the cause of this ugly mess
         let mut node: &Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
-                splay(key, root, &self.comparator);
-                // The successor is there if it is not the root: bring it up too,
-                // so that finding it again is cheap.
-                if let Some(ref mut right) = root.right {
-                    splay(key, right, &self.comparator);
+                if !lookup.is_nested {
+                    splay(key, root, &self.comparator);
+                    // The successor is there if it is not the root: bring it up too,
+                    // so that finding it again is cheap.
+                    if let Some(ref mut right) = root.right {
+                        splay(key, right, &self.comparator);
+                    }
                 }
                 root
             }
@@ -131,14 +164,18 @@ where
     }
 
     pub fn prev(&self, key: &K) -> Option<(&K, &V)> {
+        let lookup = self.start_lookup();
+
         // Splay trees are self-modifying, which is the cause of this ugly mess
         let mut node: &Node<K, V> = match self.root_mut() {
             Some(ref mut root) => {
-                splay(key, root, &self.comparator);
-                // The predecessor is there if it is not the root: bring it up
-                // too, so that finding it again is cheap.
-                if let Some(ref mut left) = root.left {
-                    splay(key, left, &self.comparator);
+                if !lookup.is_nested {
+                    splay(key, root, &self.comparator);
+                    // The predecessor is there if it is not the root: bring it up
+                    // too, so that finding it again is cheap.
+                    if let Some(ref mut left) = root.left {
+                        splay(key, left, &self.comparator);
+                    }
                 }
                 root
             }
@@ -274,6 +311,25 @@ where
         }
     }
 
+    fn start_lookup(&self) -> Lookup<'_> {
+        Lookup {
+            is_nested: self.in_lookup.replace(true),
+            in_lookup: &self.in_lookup,
+        }
+    }
+
+    /// Finds a node without moving any.
+    fn search(&self, key: &K) -> Option<&Node<K, V>> {
+        let mut node = self.root_ref().as_ref()?;
+        loop {
+            match (self.comparator)(key, &node.key) {
+                Ordering::Equal => return Some(node),
+                Ordering::Less => node = node.left.as_ref()?,
+                Ordering::Greater => node = node.right.as_ref()?,
+            }
+        }
+    }
+
     // Messy code ahead
     #[allow(clippy::mut_from_ref)]
     fn root_mut(&self) -> &mut Option<Box<Node<K, V>>> {
@@ -346,6 +402,7 @@ where
     C: Fn(&K, &K) -> Ordering,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let _lookup = self.start_lookup();
         write!(f, "{:?}", self.root_ref())
     }
 }
-- 
2.43.0


From 74657793f3122dd18a5c981eec207862d319c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 12/12] fix: do not chain an overlapping segment twice

The left event of a piece that was already chained to the segment it
overlaps (possible where rounding hid the overlap at first) was handled
again, which closed the chain into a ring: the next event then reported
its segments forever, until memory ran out.
---
 src/crossings/sweep.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 93f4f71..1c8aff2 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -377,6 +377,11 @@ where
                 }
             } else {
                 let segment = maybe_segment.expect("segment for event not found in storage");
+                if segment.is_overlapping {
+                    // Already chained to a segment that it overlaps, which is
+                    // the one that reports it.
+                    return None;
+                }
                 match event.ty {
                     LineLeft => match segment.geom {
                         Line(p, _) => assert_eq!(p, event.point),
-- 
2.43.0

