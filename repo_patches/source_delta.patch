From aae673ed71711f8425da5ee60b3e84cfa47173af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 01/10] fix: a degenerate segment only overlaps a segment it is
 colinear with

---
 src/data/line_segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..be54514 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,11 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    if l1_to_b1 == CoLinear
+      && l1_to_b2 == CoLinear
+      && l2_to_a1 == CoLinear
+      && l2_to_a2 == CoLinear
+    {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From eaa05dea999cc1ab3e7cc49408217ecd06a6aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 02/10] fix: rug::Integer::cmp_perp_vector_slope rotated the
 vector the wrong way

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From 813b56cf4ede01dac544f5e72e5b16b122d29ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 03/10] fix: CursorIter::next_back must step the tail backwards

---
 src/data/polygon/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..53d58a2 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -116,7 +116,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From 88dac91bdaa013ef0799b9476d18b52452598133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 04/10] fix: an exhausted CursorIter has no cursors left

---
 src/data/polygon/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 53d58a2..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
-- 
2.43.0


From cc2d99fbafc859d62db5c78a3b691ea7c5c94e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 05/10] fix: melkman must visit the vertices in boundary order

---
 src/algorithms/convex_hull/melkman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..0d02e25 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,8 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  // Melkman's algorithm requires the vertices in boundary order.
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From 9f0af7036d3b645f22f6d4191d1d5e83feba1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 06/10] fix: PolygonConvex::locate reported points on interior
 diagonals as OnBoundary

---
 src/data/polygon/convex.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..fc56d24 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,16 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    let location = triangle.locate(pt);
+    // Unless p2 is the last vertex, p0-p2 is a diagonal and not an edge of the polygon.
+    if location == PointLocation::OnBoundary
+      && upper + 1 < vertices.len()
+      && Point::orient(p0, p1, pt) == Orientation::CounterClockWise
+      && Point::orient(p1, p2, pt) == Orientation::CounterClockWise
+    {
+      return PointLocation::Inside;
+    }
+    location
   }
 
   /// Validates the following properties:
-- 
2.43.0


From f225036c319dab39cf21f162e62fcba9ed6a4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 07/10] fix: gift_wrapping looped forever if the start point
 was duplicated

---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..7c244b2 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // There might be several copies of the leftmost point.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From 21604460f291c5216f6cdc63e7c44d6b710c408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 08/10] fix: Point::all_colinear accepted any points if the
 first two were equal

---
 src/data/point.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..28ac326 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -306,9 +306,13 @@ impl<T: PolygonScalar> Point<T> {
     if pts.len() < 3 {
       return true;
     }
-    pts
-      .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
+    // Two distinct points are required to define a line.
+    match pts.iter().find(|&pt| pt != &pts[0]) {
+      None => true,
+      Some(other) => pts
+        .iter()
+        .all(|pt| Point::orient(&pts[0], other, pt).is_colinear()),
+    }
   }
 
   /// Docs?
-- 
2.43.0


From b5542a94cab41ead5f1ce23f061b1b516f1f448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 09/10] fix: visibility polygon panicked when several vertices
 lie on one ray

---
 src/algorithms/visibility/naive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..d5a5c14 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,14 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  // Vertices on a common ray from the origin see the same intersections. Keep only the nearest
+  // of them or the intersections would be reported more than once.
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  vertices.dedup_by(|b, a| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From 824977cb5e985e9a411efc0e0e067a8b5491ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 10/10] fix: a half-open cursor range that ends where it starts
 is empty

Cursor::to(Excluded(self)) walked the whole ring, so Cursor::is_ear looked
at the corners of the ear itself on triangles and never found one.
---
 src/data/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..c53c992 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -762,7 +762,7 @@ impl<'a, T> Cursor<'a, T> {
       Bound::Excluded(end) => CursorIter {
         cursor_head: self,
         cursor_tail: end.prev(),
-        exhausted: false,
+        exhausted: self == end,
       },
     }
   }
-- 
2.43.0

