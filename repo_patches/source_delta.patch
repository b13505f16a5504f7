From 4e9066a2d790128ca43c0eee587b094d1c78f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 01/14] fix: keep contours whose last point repeats the first
 one

A contour given as a closed ring (first point repeated at the end) fell into the
'all collinear' case and lost all of its area.
---
 iOverlay/src/segm/build.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..5e3f926 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -57,8 +57,12 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
             segments.push(Segment::with_ab(q0, q1, direct, invert));
         }
         (true, true) => {
-            // all collinear
-            if p0 != q1 {
+            if p1 == q0 && Triangle::is_not_line_point(p0, q0, q1) {
+                // the last point repeats the first one
+                segments.push(Segment::with_ab(p0, q0, direct, invert));
+                segments.push(Segment::with_ab(q0, q1, direct, invert));
+            } else if p0 != q1 {
+                // all collinear
                 segments.push(Segment::with_ab(p0, q1, direct, invert));
             }
         }
-- 
2.43.0


From 4cb60384c9265b736b42f7c2310cccdeb236b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 02/14] fix: tree split must accept an empty segment list

Segments that cancel each other completely made ver_range index out of bounds.
---
 iOverlay/src/split/solver_tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..b90315c 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -27,6 +27,8 @@ impl SplitSolver {
         snap_radius: SnapRadius,
         mut segments: Vec<Segment<C>>,
     ) -> Vec<Segment<C>> {
+        if segments.is_empty() { return segments; }
+
         let range: SegRange<i32> = segments.ver_range().into();
         let mut tree: SegExpTree<i32, i32, IdSegment> = if let Some(tree) = SegExpTree::new(range) {
             tree
-- 
2.43.0


From 787bb60311b2a6a40639a3e75d358e0a428a80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 03/14] fix: fragment split, search for border touches in the
 column on the left

A segment ending on the border x of a column lies in the previous column, so the
touches of vertical segments on that border were never found.
---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..c146e6d 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,7 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 85798146966666ea8ec33f482050341dbcf3c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 04/14] fix: fragment split, mark collinear overlaps in the
 column where they start

The overlap starts at the larger left end; testing the smaller one lost overlaps of
segments that start in different columns.
---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index c146e6d..8c013ee 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,7 +203,7 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
+                if !(fi.rect.contains_with_radius(fj.x_segment.a, r) || fj.rect.contains_with_radius(fj.x_segment.a, r)) {
                     return false;
                 }
 
-- 
2.43.0


From 792c2452ede13358591a03cffda97ee75c974ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 05/14] fix: exact column heights in the fragment grid

The fixed point slope had only 63 - log2(width * height) fraction bits, so for long
segments the correction loop ran up to 2^30 times per column.
---
 iOverlay/src/split/grid_layout.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/split/grid_layout.rs b/iOverlay/src/split/grid_layout.rs
index 345f175..c177500 100644
--- a/iOverlay/src/split/grid_layout.rs
+++ b/iOverlay/src/split/grid_layout.rs
@@ -101,19 +101,12 @@ impl FragmentBuffer {
         let width = (s.b.x - s.a.x) as u64;
         let height = (s.b.y - s.a.y).unsigned_abs() as u64;
 
-        let log = (width * height).ilog2();
-        let p = 63 - log;
-        let k = (height << p) / width;
-
         let mut w = (self.layout.pos(i0 + 1) - s.a.x) as u64;
         let dw = 1 << self.layout.power;
 
         for i in i0..i1 {
-            let h_min = (w * k) >> p;
-            let mut h_max = h_min;
-            while h_max * width < height * w {
-                h_max += 1;
-            }
+            let h_min = height * w / width;
+            let h_max = (height * w).div_ceil(width);
 
             let max_x = x0 + (w as i32);
 
-- 
2.43.0


From 30fb4a5550e924e656b59643b1137c0558c1e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 06/14] fix: split_loops must forget the points of a removed
 loop

Positions of removed points stayed in the map; when such a point came back the
subtraction underflowed or a wrong tail was cut off.
---
 iOverlay/src/string/split.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..d6a8161 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -19,9 +19,14 @@ impl Split for IntPath {
                 let tail_len = path.len() - pos;
                 if tail_len < 2 {
                     // tail is too small
-                    path.truncate(pos);
+                    for p in path.drain(pos..) {
+                        map.remove(&p);
+                    }
                 } else {
                     let mut tail = path.split_off(pos);
+                    for p in tail.iter() {
+                        map.remove(p);
+                    }
                     tail.push(point);
                     if tail.validate_area(min_area) {
                         result.push(tail);
-- 
2.43.0


From 0c585390dca3f09a97411504957ea9f79c201978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 07/14] fix: slice min_area must drop the small loops, not the
 big ones

The comparison was inverted, and the last loop was not checked at all.
---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index d6a8161..6491f26 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -39,7 +39,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -58,7 +58,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 20111b2a97e7a2960bc153f6467af2c128c82ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 08/14] fix: decompose_contours must see repeats of the
 greatest point

The trailing group of equal points was never added to the anchors.
---
 iOverlay/src/core/divide.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..5aefb1c 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -61,6 +61,10 @@ impl ContourDecomposition for IntContour {
             p0 = idp.point;
         }
 
+        if n > 0 {
+            anchors.extend_from_slice(&id_points[id_points.len() - n - 1..]);
+        }
+
         if anchors.is_empty() {
             return None;
         }
-- 
2.43.0


From 6538de552b24b20b5a70b247de0f2976dc5599cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 09/14] fix: stroke must accept paths with less than two points

An open path with zero or one point was indexed out of bounds and the capacity of an
empty set of points underflowed.
---
 iOverlay/src/mesh/stroke/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..fe29a86 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            (self.join_builder.capacity() * points_count).saturating_sub(2)
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -139,6 +139,7 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         // build segments only from points which are not equal in int space
 
         let n = path.len();
+        if n < 2 { return; }
         let mut ip0 = adapter.float_to_int(&path[0]);
         let mut ip = adapter.float_to_int(&path[1]);
         let mut j = 1;
-- 
2.43.0


From 896173ec7a4d8d2f691b5a728c0c935dfde39bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 10/14] fix: stroke_custom must apply the documented min_area
 filter

---
 iOverlay/src/mesh/stroke/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..b1fa6f7 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -102,7 +102,7 @@ where
         }
 
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, adapter.sqr_float_to_int(filter.min_area));
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From cd6d9b07f2d9f017dacebbae514629706926eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 11/14] fix: decompose_contours must keep every loop of a
 nested node

---
 iOverlay/src/core/divide.rs | 50 +++++++++++--------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index 5aefb1c..1bf5c1a 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -20,11 +20,6 @@ impl SubPath {
 
     fn join(&mut self, point: IdPoint, source: &IntContour) {
         self.path.extend_from_slice(&source[self.last..point.id]);
-        self.last = point.id;
-    }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
     }
 }
 
@@ -74,47 +69,32 @@ impl ContourDecomposition for IntContour {
 
         let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
 
-        let mut queue = vec![];
+        // open sub paths, each one goes from its node to the node of the next one
+        let mut queue: Vec<SubPath> = vec![];
 
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
-
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
-                }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+        for &a in anchors.iter() {
+            if let Some(last) = queue.last_mut() {
+                last.join(a, self);
+            }
+            if let Some(index) = queue.iter().position(|sub_path| sub_path.node == a.point) {
+                contours.push(queue.drain(index..).flat_map(|sub_path| sub_path.path).collect());
             }
-            i += 1;
+            queue.push(SubPath::start(a));
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
+        let mut path: IntPath = queue.into_iter().flat_map(|sub_path| sub_path.path).collect();
 
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
+        let last = anchors.last().unwrap().id + 1;
+        if last < self.len() {
+            path.extend_from_slice(&self[last..]);
         }
 
         let i0 = anchors.first().unwrap().id;
         if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+            path.extend_from_slice(&self[..i0]);
         }
 
-        contours.push(sub_path.path);
+        contours.push(path);
 
         Some(contours)
     }
-- 
2.43.0


From 33d265e892bb4361b52a934aa47137fc198a8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 12/14] fix: order segments and include holes when vector holes
 are bound to shapes

---
 iOverlay/src/bind/segment.rs           | 23 +++++------------------
 iOverlay/src/vector/extract_vectors.rs | 12 ++++++++----
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..f9f35c4 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,12 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        for vec in self.iter() {
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..e68e017 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,6 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
 use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
@@ -155,7 +154,7 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
@@ -172,6 +171,7 @@ impl JoinHoles for Vec<VectorShape> {
             .collect();
 
         debug_assert!(is_sorted(&hole_segments));
+        hole_segments.add_sort_by_angle();
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -181,7 +181,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
-- 
2.43.0


From 0f4ecc36eb33c92c572f3134cd06275732023324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:37 +0000
Subject: [PATCH 13/14] fix: the frame of a stroke must reach custom cap points

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..d59ff49 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -112,7 +112,10 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
     pub(super) fn additional_offset(&self) -> T {
         if let Some(points) = &self.points {
             if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
+                // custom points can be anywhere around the end of the path
+                points.iter()
+                    .map(|p| p.x().abs() + p.y().abs())
+                    .fold(rect.width() + rect.height(), |a, b| a.max(b))
             } else {
                 T::from_float(0.0)
             }
-- 
2.43.0


From e85a16a8ec99e99b76abcdfee691693824b2695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:38 +0000
Subject: [PATCH 14/14] fix: outline must not panic on an empty contour

---
 iOverlay/src/mesh/outline/offset.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iOverlay/src/mesh/outline/offset.rs b/iOverlay/src/mesh/outline/offset.rs
index 76c9d0b..be5dbc3 100644
--- a/iOverlay/src/mesh/outline/offset.rs
+++ b/iOverlay/src/mesh/outline/offset.rs
@@ -107,6 +107,10 @@ where
                 return vec![];
             };
 
+            if path.is_empty() {
+                return vec![];
+            }
+
             let area = path.unsafe_int_area(&adapter);
             if area >= -1 {
                 // single path must be clock-wised
@@ -125,6 +129,10 @@ where
             let mut overlay = Overlay::new(total_capacity);
 
             for path in self.iter_paths() {
+                if path.is_empty() {
+                    continue;
+                }
+
                 let area = path.unsafe_int_area(&adapter);
                 if area.abs() <= 1 {
                     // ignore degenerate paths
-- 
2.43.0

