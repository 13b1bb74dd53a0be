From b3ea24a4035fa48efc774c8c0d563cedc919db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 01/22] fix: keep the corner of a contour whose last point
 repeats its first

A closed contour given with its first point repeated at the end took the
'all collinear' branch, which dropped that point: a square lost a corner and
a triangle vanished.
---
 iOverlay/src/segm/build.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..3ae9408 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -57,8 +57,12 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
             segments.push(Segment::with_ab(q0, q1, direct, invert));
         }
         (true, true) => {
-            // all collinear
-            if p0 != q1 {
+            if p1 == q0 && Triangle::is_not_line_point(p0, q0, q1) {
+                // the last point repeats the first one, the corner at this point must be kept
+                segments.push(Segment::with_ab(p0, q0, direct, invert));
+                segments.push(Segment::with_ab(q0, q1, direct, invert));
+            } else if p0 != q1 {
+                // all collinear
                 segments.push(Segment::with_ab(p0, q1, direct, invert));
             }
         }
-- 
2.43.0


From fe2a105073fd818c9c37d8b7d29cecae9c6eda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 02/22] fix: mark collinear overlaps in the column where the
 overlap starts or ends

---
 iOverlay/src/split/solver_fragment.rs | 28 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..fcda74a 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -1,3 +1,4 @@
+use i_float::int::point::IntPoint;
 use crate::segm::segment::Segment;
 use crate::segm::winding_count::WindingCount;
 use crate::split::cross_solver::{CrossSolver, CrossType, EndMask};
@@ -189,6 +190,11 @@ impl SplitSolver {
         }
     }
 
+    #[inline(always)]
+    fn is_common(fi: &Fragment, fj: &Fragment, p: IntPoint, radius: i32) -> bool {
+        fi.rect.contains_with_radius(p, radius) && fj.rect.contains_with_radius(p, radius)
+    }
+
     fn cross_fragments(fi: &Fragment, fj: &Fragment, marks: &mut Vec<LineMark>, radius: i64) -> bool {
         let cross = if let Some(cross) = CrossSolver::cross(&fi.x_segment, &fj.x_segment, radius) {
             cross
@@ -203,24 +209,24 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
-                    return false;
-                }
+                // an end is marked in the column where both segments pass through it
+                let (a0, b0) = (fi.x_segment.a, fi.x_segment.b);
+                let (a1, b1) = (fj.x_segment.a, fj.x_segment.b);
 
-                if mask.is_target_a() {
-                    marks.push(LineMark { index: fj.index, point: fi.x_segment.a });
+                if mask.is_target_a() && Self::is_common(fi, fj, a0, r) {
+                    marks.push(LineMark { index: fj.index, point: a0 });
                 }
 
-                if mask.is_target_b() {
-                    marks.push(LineMark { index: fj.index, point: fi.x_segment.b });
+                if mask.is_target_b() && Self::is_common(fi, fj, b0, r) {
+                    marks.push(LineMark { index: fj.index, point: b0 });
                 }
 
-                if mask.is_other_a() {
-                    marks.push(LineMark { index: fi.index, point: fj.x_segment.a });
+                if mask.is_other_a() && Self::is_common(fi, fj, a1, r) {
+                    marks.push(LineMark { index: fi.index, point: a1 });
                 }
 
-                if mask.is_other_b() {
-                    marks.push(LineMark { index: fi.index, point: fj.x_segment.b });
+                if mask.is_other_b() && Self::is_common(fi, fj, b1, r) {
+                    marks.push(LineMark { index: fi.index, point: b1 });
                 }
             }
             _ => {
-- 
2.43.0


From c545415a3d6823def01b067eb180c2fe92d80787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 03/22] fix: split vertical edges on a column border where
 segments from the left end on them

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index fcda74a..93d681c 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -34,7 +34,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // segments that end on the border belong to the column before it
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 20addf1669c2156c12f89260e9403bfd70cddd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 04/22] fix: keep the snap radius in range for large precision
 values

---
 iOverlay/src/split/snap_radius.rs     | 6 ++++--
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 59c2dad..90f2986 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -6,8 +6,10 @@ pub(super) struct SnapRadius {
 }
 
 impl SnapRadius {
+    const MAX: usize = 60;
+
     pub(super) fn increment(&mut self) {
-        self.current = 60.min(self.current + self.step);
+        self.current = Self::MAX.min(self.current.saturating_add(self.step));
     }
 
     pub(super) fn radius(&self) -> i64 {
@@ -18,7 +20,7 @@ impl SnapRadius {
 impl SplitSolver {
     pub(super) fn snap_radius(&self) -> SnapRadius {
         SnapRadius {
-            current: self.solver.precision.start,
+            current: SnapRadius::MAX.min(self.solver.precision.start),
             step: self.solver.precision.progression,
         }
     }
diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 93d681c..d4c19ce 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,7 +203,8 @@ impl SplitSolver {
             return false;
         };
 
-        let r = radius as i32;
+        // a larger radius than the coordinate range makes no difference
+        let r = radius.min(1 << 30) as i32;
 
         match cross.cross_type {
             CrossType::Overlay => {
-- 
2.43.0


From 92fc61ce79eaba155d3978737e51e0b388973426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 05/22] fix: split a pair of edges with the tree and fragment
 strategies too

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index d4c19ce..d46f55e 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -23,7 +23,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..e347321 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -39,7 +39,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From 67aaa2b9564bcb14e3081d61b657dc7e520f541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 06/22] fix: return no edges when all of them cancel before
 splitting

---
 iOverlay/src/split/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 42f87d5..62fa18b 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -20,6 +20,9 @@ impl<C: WindingCount> SplitSegments<C> for Vec<Segment<C>> {
         let mut segments = self;
         segments.smart_bin_sort_by(&solver, |a, b| a.x_segment.cmp(&b.x_segment));
         segments.merge_if_needed();
+        if segments.is_empty() {
+            return segments;
+        }
 
         SplitSolver::new(solver).split(segments)
     }
-- 
2.43.0


From 438c3c5ba3b845473bddef23d76d2ba3577b69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 07/22] fix: compute exact fragment heights for long edges

The scaled slope lost its precision for edges near the full coordinate
range: the search for the upper bound took up to 2^27 steps per column
(half a minute for one edge) and the boxes were far too tall.
---
 iOverlay/src/split/grid_layout.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/split/grid_layout.rs b/iOverlay/src/split/grid_layout.rs
index 345f175..c7493ed 100644
--- a/iOverlay/src/split/grid_layout.rs
+++ b/iOverlay/src/split/grid_layout.rs
@@ -101,19 +101,13 @@ impl FragmentBuffer {
         let width = (s.b.x - s.a.x) as u64;
         let height = (s.b.y - s.a.y).unsigned_abs() as u64;
 
-        let log = (width * height).ilog2();
-        let p = 63 - log;
-        let k = (height << p) / width;
-
         let mut w = (self.layout.pos(i0 + 1) - s.a.x) as u64;
         let dw = 1 << self.layout.power;
 
         for i in i0..i1 {
-            let h_min = (w * k) >> p;
-            let mut h_max = h_min;
-            while h_max * width < height * w {
-                h_max += 1;
-            }
+            let h = w * height;
+            let h_min = h / width;
+            let h_max = h_min + (h % width != 0) as u64;
 
             let max_x = x0 + (w as i32);
 
-- 
2.43.0


From 25aec47893f7e47e3614f1d037cae94d75cc5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 08/22] fix: drop stale places when a traced path loses a loop,
 keep the loops of at least the minimum area

---
 iOverlay/src/string/split.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..aab2637 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -16,6 +16,10 @@ impl Split for IntPath {
 
         for point in self {
             if let Some(&pos) = map.get(&point) {
+                // these points leave the path
+                for removed in path.iter().skip(pos) {
+                    map.remove(removed);
+                }
                 let tail_len = path.len() - pos;
                 if tail_len < 2 {
                     // tail is too small
@@ -34,7 +38,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -53,7 +57,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 2095f776be9111bf9cebaa6ad13a90a5ba396248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 09/22] fix: keep all edges when a contour with several common
 touch points is divided

---
 iOverlay/src/core/divide.rs | 111 ++++++------------------------------
 1 file changed, 18 insertions(+), 93 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..685a9c5 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -1,32 +1,7 @@
+use std::collections::HashMap;
 use i_float::int::point::IntPoint;
 use i_shape::int::path::IntPath;
 use i_shape::int::shape::IntContour;
-use crate::geom::id_point::IdPoint;
-
-struct SubPath {
-    last: usize,
-    node: IntPoint,
-    path: IntPath,
-}
-
-impl SubPath {
-    fn start(point: IdPoint) -> Self {
-        Self {
-            last: point.id + 1,
-            node: point.point,
-            path: vec![point.point],
-        }
-    }
-
-    fn join(&mut self, point: IdPoint, source: &IntContour) {
-        self.path.extend_from_slice(&source[self.last..point.id]);
-        self.last = point.id;
-    }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
-    }
-}
 
 pub trait ContourDecomposition {
     fn decompose_contours(&self) -> Option<Vec<IntContour>>;
@@ -37,80 +12,30 @@ impl ContourDecomposition for IntContour {
         if self.len() < 3 {
             return None;
         }
-        let mut id_points: Vec<_> = self.iter()
-            .enumerate()
-            .map(|(i, &p)| IdPoint::new(i, p))
-            .collect();
-
-        id_points.sort_by(|p0, p1| p0.point.cmp(&p1.point).then_with(|| p0.id.cmp(&p1.id)));
-
-        let mut p0 = id_points.first().unwrap().point;
-        let mut anchors = Vec::new();
-        let mut n = 0;
-        for (i, idp) in id_points.iter().enumerate().skip(1) {
-            if p0 == idp.point {
-                n += 1;
-                continue;
-            }
-
-            if n > 0 {
-                anchors.extend_from_slice(&id_points[i - n - 1..i]);
-                n = 0;
-            }
 
-            p0 = idp.point;
-        }
-
-        if anchors.is_empty() {
-            return None;
-        }
-
-        anchors.sort_by(|p0, p1| p0.id.cmp(&p1.id));
-
-
-        let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
-
-        let mut queue = vec![];
-
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
-
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
+        let mut contours: Vec<IntContour> = Vec::new();
+        let mut path: IntPath = Vec::with_capacity(self.len());
+        // where each point of the path is
+        let mut map: HashMap<IntPoint, usize> = HashMap::with_capacity(self.len());
+
+        for &point in self.iter() {
+            if let Some(&pos) = map.get(&point) {
+                // the path is back at this point, what was added since is a contour
+                let contour = path.split_off(pos);
+                for removed in contour.iter() {
+                    map.remove(removed);
                 }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+                contours.push(contour);
             }
-            i += 1;
+            map.insert(point, path.len());
+            path.push(point);
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
-
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
-        }
-
-        let i0 = anchors.first().unwrap().id;
-        if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+        if contours.is_empty() {
+            return None;
         }
 
-        contours.push(sub_path.path);
+        contours.push(path);
 
         Some(contours)
     }
-- 
2.43.0


From be3555e02ec5aa93cb2e90881e6a09ccecfd5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 10/22] fix: start again from an edge that its dropped or
 finished contour did not use

---
 iOverlay/src/core/extract.rs           | 1 -
 iOverlay/src/mesh/boolean.rs           | 2 --
 iOverlay/src/vector/extract_vectors.rs | 2 --
 3 files changed, 5 deletions(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..f00f7d7 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -84,7 +84,6 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..d402848 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -138,14 +138,12 @@ impl OverlayGraph {
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
             if !bold {
-                link_index += 1;
                 continue;
             }
 
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..223a7f3 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -65,8 +65,6 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From 960f0a1abd3fc0a92703e8e1bca9033512bd0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 11/22] fix: bind a hole by its lowest edge when it passes its
 most left point twice

---
 iOverlay/src/bind/solver.rs  | 26 +++++++++++++-------------
 iOverlay/src/core/extract.rs |  5 +----
 iOverlay/src/mesh/boolean.rs |  5 +----
 3 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/iOverlay/src/bind/solver.rs b/iOverlay/src/bind/solver.rs
index 022166e..190a221 100644
--- a/iOverlay/src/bind/solver.rs
+++ b/iOverlay/src/bind/solver.rs
@@ -204,22 +204,22 @@ pub(crate) trait LeftBottomSegment {
 
 impl LeftBottomSegment for IntContour {
     fn left_bottom_segment(&self) -> VSegment {
-        let mut index = 0;
-        let mut a = *self.first().unwrap();
-        for (i, &p) in self.iter().enumerate().skip(1) {
-            if p < a {
-                a = p;
-                index = i;
+        let n = self.len();
+        let mut best = VSegment { a: self[0], b: self[1 % n] };
+        // the contour can pass the most left point several times
+        for (i, &a) in self.iter().enumerate() {
+            if a > best.a {
+                continue;
+            }
+            for b in [self[(i + 1) % n], self[(i + n - 1) % n]] {
+                let s = VSegment { a, b };
+                if a < best.a || s.is_under_segment(&best) {
+                    best = s;
+                }
             }
         }
-        let n = self.len();
-        let b0 = self[(index + 1) % n];
-        let b1 = self[(index + n - 1) % n];
-
-        let s0 = VSegment { a, b: b0 };
-        let s1 = VSegment { a, b: b1 };
 
-        if s0.is_under_segment(&s1) { s0 } else { s1 }
+        best
     }
 }
 
diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index f00f7d7..7bddb0b 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -89,10 +89,7 @@ impl OverlayGraph {
 
             if is_hole {
                 let mut v_segment = if clockwise {
-                    VSegment {
-                        a: contour[1],
-                        b: contour[2],
-                    }
+                    contour.left_bottom_segment()
                 } else {
                     VSegment {
                         a: contour[0],
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index d402848..1b2c075 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -149,10 +149,7 @@ impl OverlayGraph {
 
             if is_hole {
                 let mut v_segment = if clockwise {
-                    VSegment {
-                        a: path[1],
-                        b: path[2],
-                    }
+                    path.left_bottom_segment()
                 } else {
                     VSegment {
                         a: path[0],
-- 
2.43.0


From 67ac2f3d8df8dc2fd7b4307c25c7fabf49cac7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 12/22] fix: bind the holes of vector shapes by the edges below
 them

---
 iOverlay/src/bind/segment.rs           | 23 +++--------
 iOverlay/src/vector/extract_vectors.rs | 53 +++++++++-----------------
 2 files changed, 22 insertions(+), 54 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..708ed4f 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,12 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        for e in self.iter() {
+            let (a, b) = if clockwise { (e.b, e.a) } else { (e.a, e.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 223a7f3..66d22d6 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,6 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
 use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
@@ -153,23 +152,13 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
-            .map(|(id, path)| {
-                let v = path[1];
-                let v_segment = if v.a < v.b {
-                    VSegment { a: v.a, b: v.b }
-                } else {
-                    VSegment { a: v.b, b: v.a }
-                };
-                debug_assert_eq!(v_segment, most_left_bottom(path));
-                let id_data = ContourIndex::new_hole(id);
-                IdSegment::with_segment(id_data, v_segment)
-            })
+            .map(|(id, path)| IdSegment::with_segment(ContourIndex::new_hole(id), most_left_bottom(path)))
             .collect();
 
-        debug_assert!(is_sorted(&hole_segments));
+        hole_segments.sort_by_a_then_by_angle(solver);
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -179,7 +168,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
@@ -196,27 +189,15 @@ impl JoinHoles for Vec<VectorShape> {
 
 #[inline]
 fn most_left_bottom(path: &VectorPath) -> VSegment {
-    let mut index = 0;
-    let mut a = path[0].a;
-    for (i, &e) in path.iter().enumerate().skip(1) {
-        if e.a < a {
-            a = e.a;
-            index = i;
+    let mut best = VSegment { a: path[0].a, b: path[0].b };
+    // the path can pass the most left point several times
+    for e in path.iter() {
+        for s in [VSegment { a: e.a, b: e.b }, VSegment { a: e.b, b: e.a }] {
+            if s.a < best.a || s.a == best.a && s.is_under_segment(&best) {
+                best = s;
+            }
         }
     }
-    let n = path.len();
-    let b0 = path[index].b;
-    let b1 = path[(index + n - 1) % n].a;
 
-    let s0 = VSegment { a, b: b0 };
-    let s1 = VSegment { a, b: b1 };
-
-    if s0.is_under_segment(&s1) { s0 } else { s1 }
-}
-
-#[inline]
-fn is_sorted(segments: &[IdSegment]) -> bool {
-    segments
-        .windows(2)
-        .all(|slice| slice[0].v_segment.a <= slice[1].v_segment.a)
+    best
 }
-- 
2.43.0


From ad7ac4328e7a3e4ebb76b20346797187cf6ee244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 13/22] fix: order segments that start on one another

---
 iOverlay/src/geom/v_segment.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/geom/v_segment.rs b/iOverlay/src/geom/v_segment.rs
index ca3f49d..c004ce1 100644
--- a/iOverlay/src/geom/v_segment.rs
+++ b/iOverlay/src/geom/v_segment.rs
@@ -15,9 +15,25 @@ impl VSegment {
     #[inline(always)]
     fn is_under_segment_order(&self, other: &VSegment) -> Ordering {
         match self.a.cmp(&other.a) {
-            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b),
+            Ordering::Less => {
+                let order = Triangle::clock_order_point(self.a, other.a, self.b);
+                if order == Ordering::Equal {
+                    // other starts on this segment
+                    Triangle::clock_order_point(self.a, other.b, self.b)
+                } else {
+                    order
+                }
+            }
             Ordering::Equal => Triangle::clock_order_point(self.a, other.b, self.b),
-            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a),
+            Ordering::Greater => {
+                let order = Triangle::clock_order_point(other.a, other.b, self.a);
+                if order == Ordering::Equal {
+                    // this segment starts on the other
+                    Triangle::clock_order_point(other.a, other.b, self.b)
+                } else {
+                    order
+                }
+            }
         }
     }
 
-- 
2.43.0


From 5f424d819eb2cebf0c4d8fa54b9f15aa23a8083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 14/22] fix: slicing cut shapes along their own inner outlines

An edge with the filled area on both sides cuts it only where a string goes along it; overlapping input contours were cut apart along each other.
---
 iOverlay/src/string/filter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/filter.rs b/iOverlay/src/string/filter.rs
index 2ec39b3..a6af28d 100644
--- a/iOverlay/src/string/filter.rs
+++ b/iOverlay/src/string/filter.rs
@@ -1,5 +1,5 @@
 use crate::core::link::OverlayLink;
-use crate::segm::segment::{SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
+use crate::segm::segment::{CLIP_BOTH, SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
 use crate::string::graph::StringGraph;
 use crate::string::rule::StringRule;
 
@@ -53,7 +53,11 @@ impl StringGraph {
     fn filter_slice(&self) -> Vec<u8> {
         self.links
             .iter()
-            .map(|link| link.fill & SUBJ_BOTH)
+            .map(|link| match link.fill & SUBJ_BOTH {
+                // an edge inside the filled area is a cut only where a string goes along it
+                SUBJ_BOTH if link.fill & CLIP_BOTH == 0 => 0,
+                fill => fill,
+            })
             .collect()
     }
 }
-- 
2.43.0


From f66e824c0a7e8810686a0589305dcbadafc3fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:49 +0000
Subject: [PATCH 15/22] fix: tree_split: nothing to split when a list pass
 cancelled every edge

---
 iOverlay/src/split/solver_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index e347321..40ed129 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -27,6 +27,11 @@ impl SplitSolver {
         snap_radius: SnapRadius,
         mut segments: Vec<Segment<C>>,
     ) -> Vec<Segment<C>> {
+        if segments.is_empty() {
+            // a list pass may hand over nothing, when its rounding cancels every edge
+            return segments;
+        }
+
         let range: SegRange<i32> = segments.ver_range().into();
         let mut tree: SegExpTree<i32, i32, IdSegment> = if let Some(tree) = SegExpTree::new(range) {
             tree
-- 
2.43.0


From 7d354f25c1338d49fd3e125bd658e5a8d6b04308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 16/22] fix: strokes of empty and one-point paths panicked

---
 iOverlay/src/mesh/stroke/builder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..894d3f8 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            self.join_builder.capacity() * points_count
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -136,9 +136,11 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
+        let n = path.len();
+        if n < 2 { return; }
+
         // build segments only from points which are not equal in int space
 
-        let n = path.len();
         let mut ip0 = adapter.float_to_int(&path[0]);
         let mut ip = adapter.float_to_int(&path[1]);
         let mut j = 1;
-- 
2.43.0


From d4a49226f77d335c0e781b7a634495bd30980fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 17/22] fix: room for the points of a custom cap was taken from
 their bounding box

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..fce009d 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -3,7 +3,6 @@ use std::marker::PhantomData;
 use i_float::adapter::FloatPointAdapter;
 use i_float::float::compatible::FloatPointCompatible;
 use i_float::float::number::FloatNumber;
-use i_float::float::rect::FloatRect;
 use i_float::float::vector::FloatPointMath;
 use crate::mesh::boolean::OffsetCountBoolean;
 use crate::mesh::stroke::section::Section;
@@ -111,11 +110,14 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
         if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
-            } else {
-                T::from_float(0.0)
+            // the points are turned about the end of the path, so their distance to it counts
+            let mut max = T::from_float(0.0);
+            for p in points.iter() {
+                max = max.max(FloatPointMath::length(p));
             }
+
+            // add extra 10% to avoid problems with floating point precision.
+            T::from_float(1.1) * max
         } else {
             T::from_float(0.0)
         }
-- 
2.43.0


From 372f6b806f0af0448f47d1e679b5080fbe9d351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 18/22] fix: round joins were missing where a path turns
 straight back

---
 iOverlay/src/mesh/outline/builder_join.rs | 3 ++-
 iOverlay/src/mesh/stroke/builder_join.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 7fad3e1..4075b86 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -235,7 +235,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding may carry the product of two unit vectors beyond -1, where acos is NaN
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index baf87ee..6a243b1 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -249,7 +249,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding may carry the product of two unit vectors beyond -1, where acos is NaN
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From 16d73505d9967a292f930f93cb4dab3aefe835a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:17 +0000
Subject: [PATCH 19/22] fix: caps and sides of strokes and outlines could have
 edges of zero length

---
 iOverlay/src/mesh/outline/section.rs    |  4 +++-
 iOverlay/src/mesh/stroke/builder_cap.rs | 20 ++++++++++++++------
 iOverlay/src/mesh/stroke/section.rs     |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/mesh/outline/section.rs b/iOverlay/src/mesh/outline/section.rs
index 5dc018c..60e572d 100644
--- a/iOverlay/src/mesh/outline/section.rs
+++ b/iOverlay/src/mesh/outline/section.rs
@@ -42,6 +42,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
     fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>) {
         let a_top = adapter.float_to_int(&section.a_top);
         let b_top = adapter.float_to_int(&section.b_top);
-        self.push(Segment::bold_subject_ab(a_top, b_top));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(a_top, b_top));
+        }
     }
 }
\ No newline at end of file
diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index fce009d..1795a45 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -74,12 +74,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.a);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.a_bot);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     pub(super) fn add_to_end(&self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Segment<OffsetCountBoolean>>) {
@@ -90,12 +94,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.b);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.b_top);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     #[inline]
diff --git a/iOverlay/src/mesh/stroke/section.rs b/iOverlay/src/mesh/stroke/section.rs
index ddce88d..6540c4e 100644
--- a/iOverlay/src/mesh/stroke/section.rs
+++ b/iOverlay/src/mesh/stroke/section.rs
@@ -54,7 +54,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
         let a_bot = adapter.float_to_int(&section.a_bot);
         let b_bot = adapter.float_to_int(&section.b_bot);
 
-        self.push(Segment::bold_subject_ab(b_top, a_top));
-        self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(b_top, a_top));
+        }
+        if a_bot != b_bot {
+            self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 5e7abbc4652778d11387802b27aa2e926f571f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:22 +0000
Subject: [PATCH 20/22] fix: outlines of empty contours panicked

---
 iOverlay/src/mesh/outline/offset.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iOverlay/src/mesh/outline/offset.rs b/iOverlay/src/mesh/outline/offset.rs
index 76c9d0b..be5dbc3 100644
--- a/iOverlay/src/mesh/outline/offset.rs
+++ b/iOverlay/src/mesh/outline/offset.rs
@@ -107,6 +107,10 @@ where
                 return vec![];
             };
 
+            if path.is_empty() {
+                return vec![];
+            }
+
             let area = path.unsafe_int_area(&adapter);
             if area >= -1 {
                 // single path must be clock-wised
@@ -125,6 +129,10 @@ where
             let mut overlay = Overlay::new(total_capacity);
 
             for path in self.iter_paths() {
+                if path.is_empty() {
+                    continue;
+                }
+
                 let area = path.unsafe_int_area(&adapter);
                 if area.abs() <= 1 {
                     // ignore degenerate paths
-- 
2.43.0


From 22e508126d577fb2e279413807418ba1edd360aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:51 +0000
Subject: [PATCH 21/22] fix: stroke_custom ignored the smallest area of its
 filter

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..bda5b05 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -101,8 +101,10 @@ where
             builder.build(path, is_closed_path, &adapter, &mut segments);
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From 7f99b8a178e586a8e16eb5494636ac3bbb25b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:25 +0000
Subject: [PATCH 22/22] fix: holes of dropped outline contours went into other
 shapes

extract_offset left out contours without a bold edge before the holes were put
into their shapes. The holes of a shape left out went into a shape they do not
lie in, or panicked when there was none below, and so could holes that touch a
hole left out. Such contours are now left out after the holes are joined, a
shape together with its holes.
---
 iOverlay/src/mesh/boolean.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index 1b2c075..a7b371f 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -53,6 +53,26 @@ impl OverlayLink {
 
 }
 
+// a contour without a bold edge ends with its first point again until all holes are in their shapes
+trait WeakPath {
+    fn mark_weak(&mut self, bold: bool);
+    fn is_weak(&self) -> bool;
+}
+
+impl WeakPath for IntPath {
+    #[inline(always)]
+    fn mark_weak(&mut self, bold: bool) {
+        if !bold {
+            self.push(self[0]);
+        }
+    }
+
+    #[inline(always)]
+    fn is_weak(&self) -> bool {
+        self[0] == self[self.len() - 1]
+    }
+}
+
 impl WindingCount for OffsetCountBoolean {
     #[inline(always)]
     fn is_not_empty(&self) -> bool { self.subj != 0 }
@@ -137,10 +157,6 @@ impl OverlayGraph {
             let start_data = StartPathData::new(direction, link, left_top_link);
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
-            if !bold {
-                continue;
-            }
-
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
@@ -167,8 +183,10 @@ impl OverlayGraph {
                 debug_assert_eq!(v_segment, path.left_bottom_segment());
                 let id = ContourIndex::new_hole(holes.len());
                 anchors.push(IdSegment::with_segment(id, v_segment));
+                path.mark_weak(bold);
                 holes.push(path);
             } else {
+                path.mark_weak(bold);
                 shapes.push(vec![path]);
             }
         }
@@ -179,6 +197,12 @@ impl OverlayGraph {
 
         shapes.join_sorted_holes(&self.solver, holes, anchors, clockwise);
 
+        // a shape without a bold edge outside goes with its holes, a hole without one on its own
+        shapes.retain(|shape| !shape[0].is_weak());
+        for shape in shapes.iter_mut() {
+            shape.retain(|path| !path.is_weak());
+        }
+
         shapes
     }
 
-- 
2.43.0

