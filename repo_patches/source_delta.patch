From e3158e97b2c748a38e5eda7e43eb7506bc88c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 01/23] fix: provide the contour dedup that i_shape 1.10 lacks,
 so the crate compiles

---
 iOverlay/src/core/extract.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..bc9502f 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -11,7 +11,6 @@ use i_float::triangle::Triangle;
 use i_shape::int::path::{IntPath, PointPathExtension};
 use i_shape::int::shape::{IntContour, IntShapes};
 use i_shape::int::simple::Simplify;
-use i_shape::int::dedup::DedupContour;
 use crate::core::overlay::ContourDirection;
 use crate::geom::v_segment::VSegment;
 
@@ -327,6 +326,24 @@ impl StartPathData {
     }
 }
 
+trait DedupContour {
+    fn dedup_contour(&mut self) -> bool;
+}
+
+impl DedupContour for IntContour {
+    /// Removes equal neighbour points, the last and the first are neighbours too.
+    /// - Returns: true if any point was removed.
+    #[inline]
+    fn dedup_contour(&mut self) -> bool {
+        let count = self.len();
+        self.dedup();
+        while self.len() > 1 && self.first() == self.last() {
+            self.pop();
+        }
+        self.len() != count
+    }
+}
+
 pub(crate) trait Validate {
     fn validate(&mut self, min_area: usize, simplify: bool) -> (bool, bool);
 }
-- 
2.43.0


From 349293f72cde7989df295f0fca4a1f915486a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 02/23] fix: keep the corner of a contour whose last point
 repeats the first

---
 iOverlay/src/segm/build.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..6ba88b2 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -57,8 +57,12 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
             segments.push(Segment::with_ab(q0, q1, direct, invert));
         }
         (true, true) => {
-            // all collinear
-            if p0 != q1 {
+            if p1 == q0 && Triangle::is_not_line_point(p0, p1, q1) {
+                // the last point repeats the first one
+                segments.push(Segment::with_ab(p0, p1, direct, invert));
+                segments.push(Segment::with_ab(p1, q1, direct, invert));
+            } else if p0 != q1 {
+                // all collinear
                 segments.push(Segment::with_ab(p0, q1, direct, invert));
             }
         }
-- 
2.43.0


From 0db97265c69a096bf379e2840c5af58fbed223cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/23] fix: split overlapping segments in the fragment solver
 wherever the overlap starts

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..0992059 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,7 +203,8 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
+                // fi is not greater than fj, so the common part starts at fj.a
+                if !(fi.rect.contains_with_radius(fj.x_segment.a, r) || fj.rect.contains_with_radius(fj.x_segment.a, r)) {
                     return false;
                 }
 
-- 
2.43.0


From a438d0570b5eab5e6ac51ff3b7d469b2b0129c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/23] fix: split a vertical segment on a grid border at the
 ends that touch it from the left

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 0992059..3cd3765 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // a segment which ends on the border is in the previous group
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 9fc6ad5436fdfd49a32d340159c80e62013ee76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 05/23] fix: no segments are left to split when all of them
 cancel out

---
 iOverlay/src/split/solver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 42f87d5..5404307 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -20,6 +20,9 @@ impl<C: WindingCount> SplitSegments<C> for Vec<Segment<C>> {
         let mut segments = self;
         segments.smart_bin_sort_by(&solver, |a, b| a.x_segment.cmp(&b.x_segment));
         segments.merge_if_needed();
+        if segments.is_empty() {
+            return segments;
+        }
 
         SplitSolver::new(solver).split(segments)
     }
@@ -279,6 +282,9 @@ impl SplitSolver {
         segments.sort_unstable_by(|a, b| a.x_segment.cmp(&b.x_segment));
 
         segments.merge_if_needed();
+        if segments.is_empty() {
+            return segments;
+        }
 
         segments
     }
-- 
2.43.0


From 88a23597f8fb25bdb3ed50bcaf9f99b9a7e93cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 06/23] fix: order segments by angle when one starts inside of
 the other

---
 iOverlay/src/geom/v_segment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/geom/v_segment.rs b/iOverlay/src/geom/v_segment.rs
index ca3f49d..7e8e4b2 100644
--- a/iOverlay/src/geom/v_segment.rs
+++ b/iOverlay/src/geom/v_segment.rs
@@ -15,9 +15,12 @@ impl VSegment {
     #[inline(always)]
     fn is_under_segment_order(&self, other: &VSegment) -> Ordering {
         match self.a.cmp(&other.a) {
-            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b),
+            // a segment can start inside of the other one, then they are ordered by angle
+            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b)
+                .then_with(|| Triangle::clock_order_point(self.a, other.b, self.b)),
             Ordering::Equal => Triangle::clock_order_point(self.a, other.b, self.b),
-            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a),
+            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a)
+                .then_with(|| Triangle::clock_order_point(other.a, other.b, self.b)),
         }
     }
 
-- 
2.43.0


From a259f2a1f109db93d02669ead6a7c701187c275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 07/23] fix: bind a hole that touches its own left bottom point
 by its lowest segment

---
 iOverlay/src/bind/solver.rs  | 27 +++++++++++++++++----------
 iOverlay/src/core/extract.rs |  3 ++-
 iOverlay/src/mesh/boolean.rs |  3 ++-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/iOverlay/src/bind/solver.rs b/iOverlay/src/bind/solver.rs
index 022166e..32d1895 100644
--- a/iOverlay/src/bind/solver.rs
+++ b/iOverlay/src/bind/solver.rs
@@ -204,22 +204,29 @@ pub(crate) trait LeftBottomSegment {
 
 impl LeftBottomSegment for IntContour {
     fn left_bottom_segment(&self) -> VSegment {
-        let mut index = 0;
+        let n = self.len();
         let mut a = *self.first().unwrap();
-        for (i, &p) in self.iter().enumerate().skip(1) {
+        let mut lowest: Option<VSegment> = None;
+        for (index, &p) in self.iter().enumerate() {
+            if p > a {
+                continue;
+            }
             if p < a {
                 a = p;
-                index = i;
+                lowest = None;
             }
-        }
-        let n = self.len();
-        let b0 = self[(index + 1) % n];
-        let b1 = self[(index + n - 1) % n];
 
-        let s0 = VSegment { a, b: b0 };
-        let s1 = VSegment { a, b: b1 };
+            // the contour can touch itself in this point, so all its segments are compared
+            for b in [self[(index + 1) % n], self[(index + n - 1) % n]] {
+                let s = VSegment { a, b };
+                lowest = match lowest {
+                    Some(v) if !s.is_under_segment(&v) => Some(v),
+                    _ => Some(s),
+                };
+            }
+        }
 
-        if s0.is_under_segment(&s1) { s0 } else { s1 }
+        lowest.unwrap()
     }
 }
 
diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index bc9502f..f7903df 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -99,7 +99,8 @@ impl OverlayGraph {
                         b: contour[contour.len() - 1],
                     }
                 };
-                if is_modified {
+                // a clockwise path can touch its left point a few times
+                if is_modified || clockwise {
                     let most_left = contour.left_bottom_segment();
                     if most_left != v_segment {
                         v_segment = most_left;
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..56da65a 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -161,7 +161,8 @@ impl OverlayGraph {
                         b: path[path.len() - 1],
                     }
                 };
-                if is_modified {
+                // a clockwise path can touch its left point a few times
+                if is_modified || clockwise {
                     let most_left = path.left_bottom_segment();
                     if most_left != v_segment {
                         v_segment = most_left;
-- 
2.43.0


From d3af6dc263b5d3db6a5f1986334f337bf0cb8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/23] fix: do not lose a contour next to one that is dropped
 for its area

---
 iOverlay/src/core/extract.rs | 1 -
 iOverlay/src/mesh/boolean.rs | 2 --
 2 files changed, 3 deletions(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index f7903df..8addafb 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -83,7 +83,6 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index 56da65a..0069014 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -138,14 +138,12 @@ impl OverlayGraph {
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
             if !bold {
-                link_index += 1;
                 continue;
             }
 
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
-- 
2.43.0


From a9d781c9d62d7d9ae6a669351ca43f736c309987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 09/23] fix: bind the holes of vector shapes the way the holes
 of shapes are bound

---
 iOverlay/src/bind/segment.rs           | 24 +++---------
 iOverlay/src/vector/extract_vectors.rs | 53 +++++---------------------
 2 files changed, 16 insertions(+), 61 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..5fe8d59 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,13 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        for vec in self.iter() {
+            // only segments with the filling on the top are required
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..0362595 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,16 +1,14 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{LeftBottomSegment, ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
 use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
-use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
-use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
+use crate::vector::edge::{ToPath, VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
     pub fn extract_separate_vectors(&self) -> Vec<VectorEdge> {
@@ -155,23 +153,15 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
-                let v = path[1];
-                let v_segment = if v.a < v.b {
-                    VSegment { a: v.a, b: v.b }
-                } else {
-                    VSegment { a: v.b, b: v.a }
-                };
-                debug_assert_eq!(v_segment, most_left_bottom(path));
-                let id_data = ContourIndex::new_hole(id);
-                IdSegment::with_segment(id_data, v_segment)
+                IdSegment::with_segment(ContourIndex::new_hole(id), path.to_path().left_bottom_segment())
             })
             .collect();
 
-        debug_assert!(is_sorted(&hole_segments));
+        hole_segments.sort_by_a_then_by_angle(solver);
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -181,7 +171,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
@@ -195,30 +189,3 @@ impl JoinHoles for Vec<VectorShape> {
         }
     }
 }
-
-#[inline]
-fn most_left_bottom(path: &VectorPath) -> VSegment {
-    let mut index = 0;
-    let mut a = path[0].a;
-    for (i, &e) in path.iter().enumerate().skip(1) {
-        if e.a < a {
-            a = e.a;
-            index = i;
-        }
-    }
-    let n = path.len();
-    let b0 = path[index].b;
-    let b1 = path[(index + n - 1) % n].a;
-
-    let s0 = VSegment { a, b: b0 };
-    let s1 = VSegment { a, b: b1 };
-
-    if s0.is_under_segment(&s1) { s0 } else { s1 }
-}
-
-#[inline]
-fn is_sorted(segments: &[IdSegment]) -> bool {
-    segments
-        .windows(2)
-        .all(|slice| slice[0].v_segment.a <= slice[1].v_segment.a)
-}
-- 
2.43.0


From 1476279da022b1fb4776bf9edd430d1d27aa2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 10/23] fix: do not skip a vector contour that starts in a
 point shared by others

---
 iOverlay/src/vector/extract_vectors.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 0362595..30363ae 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -63,8 +63,6 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From edca06d72fac1dd567d4eb07ddeecf8bcd8339ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 11/23] fix: split the segments also when only two of them are
 left

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 3cd3765..08b6e57 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -22,7 +22,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..e347321 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -39,7 +39,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From 69d903c3229b0b8c1f80d870a642dc521e962232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 12/23] fix: keep the loops of a slice by area, not the ones
 below the limit

---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..f960e13 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -34,7 +34,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -53,7 +53,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 142a31fa714769201a7dac7bd3552d4a9128e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 13/23] fix: let the snap radius grow when splitting at a
 constant radius does not end

---
 iOverlay/src/split/snap_radius.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 59c2dad..a7c95d9 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -3,11 +3,18 @@ use crate::split::solver::SplitSolver;
 pub(super) struct SnapRadius {
     current: usize,
     step: usize,
+    passes: usize,
 }
 
 impl SnapRadius {
+    // A radius that never grows may move nearly parallel segments by a few units
+    // with every pass and practically never come to an end.
+    const MAX_CONSTANT_PASSES: usize = 32;
+
     pub(super) fn increment(&mut self) {
-        self.current = 60.min(self.current + self.step);
+        self.passes += 1;
+        let step = if self.step == 0 && self.passes > Self::MAX_CONSTANT_PASSES { 1 } else { self.step };
+        self.current = 60.min(self.current + step);
     }
 
     pub(super) fn radius(&self) -> i64 {
@@ -20,6 +27,7 @@ impl SplitSolver {
         SnapRadius {
             current: self.solver.precision.start,
             step: self.solver.precision.progression,
+            passes: 0,
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 94a4ae4c818b7a3e9b90f25ed86b32db554b315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 14/23] fix: apply the minimum area of the filter to strokes

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..bda5b05 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -101,8 +101,10 @@ where
             builder.build(path, is_closed_path, &adapter, &mut segments);
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From 0a19510f6660cd7bed0f533014363b2febe8b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 15/23] fix: keep round joins of paths turning back round

---
 iOverlay/src/mesh/outline/builder_join.rs | 3 ++-
 iOverlay/src/mesh/stroke/builder_join.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 7fad3e1..f2a6c37 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -235,7 +235,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding can bring the dot product of opposite directions just below -1
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index baf87ee..b76b23a 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -249,7 +249,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        // rounding can bring the dot product of opposite directions just below -1
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From c9163047aa1478617b68295f84aa041b3624b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 16/23] fix: make room for any custom cap of a stroke

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..986a576 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -3,7 +3,6 @@ use std::marker::PhantomData;
 use i_float::adapter::FloatPointAdapter;
 use i_float::float::compatible::FloatPointCompatible;
 use i_float::float::number::FloatNumber;
-use i_float::float::rect::FloatRect;
 use i_float::float::vector::FloatPointMath;
 use crate::mesh::boolean::OffsetCountBoolean;
 use crate::mesh::stroke::section::Section;
@@ -110,14 +109,15 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
 
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
+        // a cap can be turned any way, so its farthest point from the path end counts
+        let mut max_sqr_length = 0.0f64;
         if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
-            } else {
-                T::from_float(0.0)
+            for p in points.iter() {
+                let (x, y) = (p.x().to_f64(), p.y().to_f64());
+                max_sqr_length = max_sqr_length.max(x * x + y * y);
             }
-        } else {
-            T::from_float(0.0)
         }
+        // add extra 10% to avoid problems with floating point precision.
+        T::from_float(1.1 * max_sqr_length.sqrt())
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8f5466e437fa1de383cff0ddbc98ee9be2869f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 17/23] fix: make nothing of stroke paths without sections

---
 iOverlay/src/mesh/stroke/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..ac7f563 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            (self.join_builder.capacity() * points_count).saturating_sub(2)
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -136,6 +136,8 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
+        if path.len() < 2 { return; }
+
         // build segments only from points which are not equal in int space
 
         let n = path.len();
-- 
2.43.0


From 938e80cb958213964fa828168c18c88f255873f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 18/23] fix: do not cut sections of a stroke shorter than its
 width at inner joins

---
 iOverlay/src/mesh/stroke/builder_join.rs | 73 +++++++++++++++++++-----
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index b76b23a..0fc195b 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -44,6 +44,48 @@ impl BevelJoinBuilder {
         Self::add_segment(&s1.a_bot, &s0.b_bot, adapter, segments);
     }
 
+    /// The inner side of a turn to the left.
+    #[inline]
+    fn inner_top<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_inner(&s0.b_top, &s0.b, &s1.a_top, adapter, segments);
+    }
+
+    /// The inner side of a turn to the right.
+    #[inline]
+    fn inner_bot<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_inner(&s1.a_bot, &s0.b, &s0.b_bot, adapter, segments);
+    }
+
+    /// A straight segment would cut off a part of the stroke if a section is shorter than
+    /// the stroke is wide, so the inner side goes through the center of the turn.
+    #[inline]
+    fn add_inner<T: FloatNumber, P: FloatPointCompatible<T>>(
+        a: &P,
+        center: &P,
+        b: &P,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        let ia = adapter.float_to_int(a);
+        let ib = adapter.float_to_int(b);
+        if ia.sqr_distance(ib) < 4 {
+            Self::add_segment(a, b, adapter, segments);
+        } else {
+            Self::add_segment(a, center, adapter, segments);
+            Self::add_segment(center, b, adapter, segments);
+        }
+    }
+
     #[inline]
     fn add_segment<T: FloatNumber, P: FloatPointCompatible<T>>(
         a: &P,
@@ -69,13 +111,19 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_top(s0, s1, adapter, segments);
-        Self::join_bot(s0, s1, adapter, segments);
+        let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
+        if cross_product > T::from_float(0.0) {
+            Self::inner_top(s0, s1, adapter, segments);
+            Self::join_bot(s0, s1, adapter, segments);
+        } else {
+            Self::join_top(s0, s1, adapter, segments);
+            Self::inner_bot(s0, s1, adapter, segments);
+        }
     }
 
     #[inline]
     fn capacity(&self) -> usize {
-        2
+        3
     }
 
     #[inline]
@@ -137,7 +185,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         if is_limited {
             let (pa, pb, ac, bc) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::inner_top(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s1.a_bot, s0.b_bot, s1.dir, s0.dir);
 
                 let ax = pa.x() - self.max_length * va.x();
@@ -150,7 +198,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
                 (pa, pb, ac, bc)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::inner_bot(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s0.b_top, s1.a_top, s0.dir, s1.dir);
 
                 let ax = pa.x() + self.max_length * va.x();
@@ -185,10 +233,10 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
             }
         } else {
             let (pa, pb, va, vb) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::inner_top(s0, s1, adapter, segments);
                 (s1.a_bot, s0.b_bot, s1.dir, s0.dir)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::inner_bot(s0, s1, adapter, segments);
                 (s0.b_top, s1.a_top, s0.dir, s1.dir)
             };
             match Miter::sharp(pa, pb, va, vb, adapter) {
@@ -204,7 +252,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
     #[inline]
     fn capacity(&self) -> usize {
-        4
+        5
     }
 
     #[inline]
@@ -244,8 +292,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
     ) {
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder {}.add_join(s0, s1, adapter, segments);
             return;
         }
 
@@ -257,11 +304,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
 
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let (start, end, dir) = if cross_product > T::from_float(0.0) {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+            BevelJoinBuilder::inner_top(s0, s1, adapter, segments);
             let ortho = P::from_xy(s1.dir.y(), -s1.dir.x());
             (s1.a_bot, s0.b_bot, ortho)
         } else {
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder::inner_bot(s0, s1, adapter, segments);
             let ortho = P::from_xy(-s0.dir.y(), s0.dir.x());
             (s0.b_top, s1.a_top, ortho)
         };
@@ -289,7 +336,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
 
     #[inline]
     fn capacity(&self) -> usize {
-        self.average_count
+        self.average_count + 1
     }
 
     #[inline]
-- 
2.43.0


From 9780c15b6a72577f92e4da0c68383ae4ba645df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 19/23] fix: do not cut or fill outlines by straight segments
 at inner joins

---
 iOverlay/src/mesh/outline/builder.rs      |  2 +-
 iOverlay/src/mesh/outline/builder_join.rs | 55 ++++++++++++++++++-----
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder.rs b/iOverlay/src/mesh/outline/builder.rs
index e2be642..97ca2cc 100644
--- a/iOverlay/src/mesh/outline/builder.rs
+++ b/iOverlay/src/mesh/outline/builder.rs
@@ -47,7 +47,7 @@ impl<P: FloatPointCompatible<T> + 'static, T: FloatNumber + 'static> OutlineBuil
             }),
             LineJoin::Bevel => Box::new(Builder {
                 radius,
-                join_builder: BevelJoinBuilder {},
+                join_builder: BevelJoinBuilder::new(radius),
                 _phantom: Default::default(),
             }),
         };
diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index f2a6c37..2c8cb8a 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -21,21 +21,48 @@ pub(super) trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
     fn additional_offset(&self, radius: T) -> T;
 }
 
-pub(super) struct BevelJoinBuilder;
+pub(super) struct BevelJoinBuilder {
+    expand: bool,
+}
 
 impl BevelJoinBuilder {
+    pub(super) fn new<T: FloatNumber>(radius: T) -> Self {
+        Self { expand: radius >= T::from_float(0.0) }
+    }
+
+    #[inline]
+    fn join_outer<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_segment(&s0.b_top, &s1.a_top, adapter, segments);
+    }
+
+    /// A straight segment would put on or take off too much if a section is shorter than
+    /// the offset, so the inner side of a turn goes through its center.
     #[inline]
-    fn join_weak<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn join_inner<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
         s1: &Section<P, T>,
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::add_weak_segment(&s0.b_top, &s1.a_top, adapter, segments);
+        let ia = adapter.float_to_int(&s0.b_top);
+        let ib = adapter.float_to_int(&s1.a_top);
+        if ia.sqr_distance(ib) < 4 {
+            if ia != ib {
+                segments.push(Segment::weak_subject_ab(ia, ib));
+            }
+        } else {
+            Self::add_segment(&s0.b_top, &s0.b, adapter, segments);
+            Self::add_segment(&s0.b, &s1.a_top, adapter, segments);
+        }
     }
 
     #[inline]
-    fn add_weak_segment<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn add_segment<T: FloatNumber, P: FloatPointCompatible<T>>(
         a: &P,
         b: &P,
         adapter: &FloatPointAdapter<P, T>,
@@ -44,7 +71,7 @@ impl BevelJoinBuilder {
         let ia = adapter.float_to_int(a);
         let ib = adapter.float_to_int(b);
         if ia != ib {
-            segments.push(Segment::weak_subject_ab(ia, ib));
+            segments.push(Segment::bold_subject_ab(ia, ib));
         }
     }
 
@@ -59,12 +86,18 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_weak(s0, s1, adapter, segments);
+        let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
+        let turn = cross_product >= T::from_float(0.0);
+        if turn == self.expand {
+            Self::join_inner(s0, s1, adapter, segments);
+        } else {
+            Self::join_outer(s0, s1, adapter, segments);
+        }
     }
 
     #[inline]
     fn capacity(&self) -> usize {
-        2
+        3
     }
 
     #[inline]
@@ -118,7 +151,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
@@ -130,7 +163,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         let sq_len = ia.sqr_distance(ib);
         if sq_len < 4 {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return
         }
 
@@ -225,13 +258,13 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return;
         }
 
-- 
2.43.0


From d3708357db2e220cf6f9216bf973235f2d48bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 20/23] fix: make no outline of empty contours

---
 iOverlay/src/mesh/outline/offset.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iOverlay/src/mesh/outline/offset.rs b/iOverlay/src/mesh/outline/offset.rs
index 76c9d0b..be5dbc3 100644
--- a/iOverlay/src/mesh/outline/offset.rs
+++ b/iOverlay/src/mesh/outline/offset.rs
@@ -107,6 +107,10 @@ where
                 return vec![];
             };
 
+            if path.is_empty() {
+                return vec![];
+            }
+
             let area = path.unsafe_int_area(&adapter);
             if area >= -1 {
                 // single path must be clock-wised
@@ -125,6 +129,10 @@ where
             let mut overlay = Overlay::new(total_capacity);
 
             for path in self.iter_paths() {
+                if path.is_empty() {
+                    continue;
+                }
+
                 let area = path.unsafe_int_area(&adapter);
                 if area.abs() <= 1 {
                     // ignore degenerate paths
-- 
2.43.0


From df9fc87038866cb1ef7704e8352eb50a8608a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 21/23] fix: divide contours at all points passed more than
 once

---
 iOverlay/src/core/divide.rs | 115 ++++++++++--------------------------
 1 file changed, 32 insertions(+), 83 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..4474803 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -1,33 +1,6 @@
-use i_float::int::point::IntPoint;
-use i_shape::int::path::IntPath;
 use i_shape::int::shape::IntContour;
 use crate::geom::id_point::IdPoint;
 
-struct SubPath {
-    last: usize,
-    node: IntPoint,
-    path: IntPath,
-}
-
-impl SubPath {
-    fn start(point: IdPoint) -> Self {
-        Self {
-            last: point.id + 1,
-            node: point.point,
-            path: vec![point.point],
-        }
-    }
-
-    fn join(&mut self, point: IdPoint, source: &IntContour) {
-        self.path.extend_from_slice(&source[self.last..point.id]);
-        self.last = point.id;
-    }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
-    }
-}
-
 pub trait ContourDecomposition {
     fn decompose_contours(&self) -> Option<Vec<IntContour>>;
 }
@@ -44,73 +17,49 @@ impl ContourDecomposition for IntContour {
 
         id_points.sort_by(|p0, p1| p0.point.cmp(&p1.point).then_with(|| p0.id.cmp(&p1.id)));
 
-        let mut p0 = id_points.first().unwrap().point;
-        let mut anchors = Vec::new();
-        let mut n = 0;
-        for (i, idp) in id_points.iter().enumerate().skip(1) {
-            if p0 == idp.point {
-                n += 1;
-                continue;
-            }
+        const NONE: usize = usize::MAX;
 
-            if n > 0 {
-                anchors.extend_from_slice(&id_points[i - n - 1..i]);
-                n = 0;
+        // points passed more than once get a common index
+        let mut shared = vec![NONE; self.len()];
+        let mut count = 0;
+        for group in id_points.chunk_by(|p0, p1| p0.point == p1.point) {
+            if group.len() > 1 {
+                for p in group.iter() {
+                    shared[p.id] = count;
+                }
+                count += 1;
             }
-
-            p0 = idp.point;
         }
 
-        if anchors.is_empty() {
+        if count == 0 {
             return None;
         }
 
-        anchors.sort_by(|p0, p1| p0.id.cmp(&p1.id));
-
-
-        let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
-
-        let mut queue = vec![];
-
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
-
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
+        let mut contours = Vec::with_capacity(count + 1);
+
+        // the way from the first point without the loops closed so far
+        let mut path: Vec<usize> = Vec::with_capacity(self.len());
+        // where on this way shared points are
+        let mut position = vec![NONE; count];
+
+        for (i, &index) in shared.iter().enumerate() {
+            if index != NONE {
+                let start = position[index];
+                if start != NONE {
+                    contours.push(path[start..].iter().map(|&id| self[id]).collect());
+                    for &id in path[start..].iter() {
+                        if shared[id] != NONE {
+                            position[shared[id]] = NONE;
+                        }
+                    }
+                    path.truncate(start);
                 }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+                position[index] = path.len();
             }
-            i += 1;
-        }
-
-        let mut sub_path: SubPath = queue.pop().unwrap();
-
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
-        }
-
-        let i0 = anchors.first().unwrap().id;
-        if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+            path.push(i);
         }
 
-        contours.push(sub_path.path);
+        contours.push(path.iter().map(|&id| self[id]).collect());
 
         Some(contours)
     }
-- 
2.43.0


From 6aa830ab83e0cc11e11fb74169b29fc302d2e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 22/23] fix: keep the pieces of a clipped line in its order
 when rounded points of a steep line are sorted

---
 iOverlay/src/segm/winding_count.rs |  5 +++++
 iOverlay/src/split/solver.rs       | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/segm/winding_count.rs b/iOverlay/src/segm/winding_count.rs
index e0c013b..7cdfdc9 100644
--- a/iOverlay/src/segm/winding_count.rs
+++ b/iOverlay/src/segm/winding_count.rs
@@ -27,6 +27,9 @@ pub(crate) trait WindingCount
 where
     Self: Clone + Copy + Send,
 {
+    /// Parts walked back and forth do not cancel each other.
+    const IS_DIRECTED: bool = false;
+
     fn is_not_empty(&self) -> bool;
     fn new(subj: i32, clip: i32) -> Self;
     fn with_shape_type(shape_type: ShapeType) -> (Self, Self);
@@ -71,6 +74,8 @@ impl WindingCount for ShapeCountBoolean {
 }
 
 impl WindingCount for ShapeCountString {
+    const IS_DIRECTED: bool = true;
+
     #[inline(always)]
     fn is_not_empty(&self) -> bool { self.subj != 0 || self.clip != 0 }
 
diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 5404307..28a5e79 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -1,3 +1,4 @@
+use i_float::fix_vec::FixVec;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_key_sort::key_sort::Bin;
@@ -311,7 +312,7 @@ impl SplitSolver {
     }
 
     #[inline]
-    fn sort_and_filter_marks<C: Send>(&self, marks: &mut Vec<LineMark>, segments: &[Segment<C>]) {
+    fn sort_and_filter_marks<C: WindingCount>(&self, marks: &mut Vec<LineMark>, segments: &[Segment<C>]) {
         marks.smart_bin_sort_by(&self.solver, |a, b| a.index.cmp(&b.index).then(a.point.cmp(&b.point)));
         marks.dedup();
 
@@ -341,7 +342,16 @@ impl SplitSolver {
     }
 
     #[inline]
-    fn sort_sub_marks<C: Send>(marks: &mut [LineMark], segments: &[Segment<C>]) {
+    fn sort_sub_marks<C: WindingCount>(marks: &mut [LineMark], segments: &[Segment<C>]) {
+        if C::IS_DIRECTED {
+            // rounded points lie next to the segment, on a steep one their order by x can differ from their order along it
+            let s = segments[marks[0].index].x_segment;
+            let a = FixVec::new_point(s.a);
+            let v = FixVec::new_point(s.b) - a;
+            marks.sort_by_key(|m| (FixVec::new_point(m.point) - a).dot_product(v));
+            return;
+        }
+
         let mut j0 = 0;
         let mut j = 1;
 
-- 
2.43.0


From 22a7c235988d1ba6f0e2564a06f540bdf7277697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:43 +0000
Subject: [PATCH 23/23] fix: do not lose crossings in the fragment solver when
 the snap radius outgrows 32 bits

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 08b6e57..834a581 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -197,7 +197,8 @@ impl SplitSolver {
             return false;
         };
 
-        let r = radius as i32;
+        // no two points are further apart than that
+        let r = radius.min(1 << 30) as i32;
 
         match cross.cross_type {
             CrossType::Overlay => {
-- 
2.43.0

