From f222d6893a043b2c87e673ed263b8a500ecbafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 01/27] fix: project a point onto a line along the
 perpendicular direction

The perpendicular of a*x + b*y + c = 0 has slope b/a, not a/b; the two agree
only for lines at 45 degrees.
---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From 47e356498cc4241173637d49a2d694e4ef9229e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 02/27] fix: dispatch the arc/circle intersection test to the
 circle/arc routine

is_segment_2_segment_2_intersected(arc, circle) called the arc/arc routine,
which asks the circle for its source point and panics.
---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 8ed1788cc34b0e2516215789a54cc39885343f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 03/27] fix: a segment leaving a circle intersects it

With one endpoint inside and the other outside, and the foot of the centre off
the segment, is_line_segment_2_circle_segment_2_intersected returned false
although line_segment_2_circle_segment_2_intersection reports the point.
---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..21a079f 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -26,6 +26,10 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         || target_relation == Point2Circle2Location::On
     {
         return true;
+    } else if source_relation == Point2Circle2Location::Inside
+        || target_relation == Point2Circle2Location::Inside
+    {
+        return true;
     } else {
         let projection_point = point_2_project_line_segment_2(&center, line_segment);
         match projection_point {
-- 
2.43.0


From aa21fba44e6167009f91d04dafb03061071226fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 04/27] fix: disjoint collinear segments do not intersect

All four cross products of disjoint collinear segments are zero, so the test
answered true and the intersection was the point 0/0; short segments that only
come close were also reported, because a product of crosses was compared with
eps. Segments meet when an endpoint of one is on the other, or both properly
separate each other's endpoints.
---
 .../intersection/line_segment_2_line_segment_2.rs      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..ee826aa 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,8 +13,14 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
-    let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    if is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+        || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+        || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+        || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a)
+    {
+        return true;
+    }
+    ab.cross(&ac) * ab.cross(&ad) < T::zero() && cd.cross(&ca) * cd.cross(&cb) < T::zero()
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From 09af5b48db789b6681eed35e3cd32b65841d0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 05/27] fix: compute the crossing of a segment and a ray

cross2 was taken from the segment's target, which makes it equal to cross1, so
the midpoint of the segment was reported when it happened to lie on the ray
and nothing otherwise. Solve for the ray parameter and reject crossings behind
the origin.
---
 src/algorithm/intersection/line_segment_2_ray_2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..2ccae8c 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -60,7 +60,7 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                     _ => {
                         let v1 = target - source;
                         let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
+                        let v3 = v2 + ray_segment.direction();
                         let cross1 = v1.cross(&v2);
                         let cross2 = v1.cross(&v3);
                         if cross1.equals(cross2) {
@@ -73,6 +73,9 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                             return result;
                         } else {
                             let t = cross1 / (cross1 - cross2);
+                            if t < T::zero() {
+                                return result;
+                            }
                             let point =
                                 ray_segment.origin().get_vector() + ray_segment.direction() * t;
                             result.push(Point2::new(point.x(), point.y()));
-- 
2.43.0


From 8e2136e9749f57c9c5ab9cec22d1f12c3a7edf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 06/27] fix: decide segment/ray intersection by the computed
 intersection

The sign test accepted a crossing only for one direction of the segment and
also behind the ray's origin.
---
 src/algorithm/intersection/line_segment_2_ray_2.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 2ccae8c..243c4d8 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -13,12 +13,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
-- 
2.43.0


From 75d0727d2822a798b9bc16ba3fffa87b0013310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 07/27] fix: split an arc into exactly its monotone pieces

monotone() emitted the part of the half circle before the arc's source (and
from it a full circle when two radians coincided), and nothing at all for an
arc inside one half or one that passes radian zero.
---
 src/kernel/arc_segment_2.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..f0b59e4 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -42,23 +42,18 @@ impl<T: NumberType> ArcSegment2<T> {
         let pi = T::pi();
         let mut radians = Vec::new();
         let mut end_pi = T::zero();
-        let mut min_flag = false;
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
+        let mut target_radian = self.target_radian;
+        while target_radian < self.source_radian {
+            target_radian = target_radian + pi * T::from_f64(2.0);
+        }
+        radians.push(self.source_radian.clone());
+        while !end_pi.equals(target_radian) && end_pi < target_radian {
+            if !end_pi.equals(self.source_radian) && end_pi > self.source_radian {
                 radians.push(end_pi.clone());
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
+        radians.push(target_radian);
         for i in 0..radians.len() - 1 {
             arcs.push(ArcSegment2::new(
                 self.support,
-- 
2.43.0


From 45a655d05d75842c1aaaf027d5b65692142ad9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 08/27] fix: is_top for arcs past the first turn

Radians up to four pi are kept by ArcSegment2::new, but is_top compared them
with pi directly, so an upper arc starting at or after two pi was a lower one,
and an arc passing radian zero could be an upper one.
---
 src/kernel/arc_segment_2.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index f0b59e4..262c11e 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -34,7 +34,17 @@ impl<T: NumberType> ArcSegment2<T> {
 
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
-        self.source_radian < pi && (self.target_radian.equals(pi) || self.target_radian < pi)
+        let two_pi = pi * T::from_f64(2.0);
+        let mut source_radian = self.source_radian;
+        let mut target_radian = self.target_radian;
+        while source_radian.equals(two_pi) || source_radian > two_pi {
+            source_radian = source_radian - two_pi;
+            target_radian = target_radian - two_pi;
+        }
+        while target_radian < source_radian {
+            target_radian = target_radian + two_pi;
+        }
+        source_radian < pi && (target_radian.equals(pi) || target_radian < pi)
     }
 
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
-- 
2.43.0


From bd9949ca2c1824a34fdd4ad1031e763fda716392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 09/27] fix: do not keep the successor borrowed while deleting
 it from the AVL tree

The temporary of temp.borrow().value lives until the end of the statement, so
delete() panicked with 'already borrowed' when it had to modify that node.
---
 src/data_structure/avl_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..d8f6d5a 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,8 +89,9 @@ where
                         temp = temp_left.unwrap();
                     }
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let value = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete(right, value);
+                    node.borrow_mut().value = value;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
-- 
2.43.0


From 7efbb934e67f4e3c71c987ce81f739ff774064f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 10/27] fix: project onto a zero-length segment without
 dividing zero by zero

---
 src/algorithm/projection/point_2_line_segment_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..8ee9002 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -12,6 +12,9 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     if c1 < -eps || c1 > c2 + eps {
         return None;
     }
+    if c2 == T::zero() {
+        return Some(segment.source());
+    }
     let b = c1 / c2;
     let t = v * b;
     let t = Point2::new(t.x(), t.y());
-- 
2.43.0


From 07a9f0d490c4ea6ff346a95fb98f930657d94e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 11/27] fix: sort hull points with a total order

Comparing x up to eps is not transitive: sort_by may panic on points whose x
differ by less than eps, and the chains need the lexicographic order.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..fa38ede 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -11,7 +11,7 @@ impl<T: NumberType> ConvexHull2<T> {
 
     pub fn convex_hull(&mut self) -> Vec<Point2<T>> {
         self.points.sort_by(|a, b| {
-            if !a.x().equals(b.x()) {
+            if a.x() != b.x() {
                 a.x().partial_cmp(&b.x()).unwrap()
             } else {
                 a.y().partial_cmp(&b.y()).unwrap()
-- 
2.43.0


From a5124e0f75e7ef38af1a91411e5e7663150c2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 12/27] fix: the convex hull of one point is that point

Both chains lose their last vertex, so a single point had an empty hull and
repeated copies of it were reported twice.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index fa38ede..aaadcbb 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,6 +17,11 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        if let (Some(first), Some(last)) = (self.points.first(), self.points.last()) {
+            if first.x() == last.x() && first.y() == last.y() {
+                return vec![first.clone()];
+            }
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
         for p in self.points.iter() {
-- 
2.43.0


From 0d2ab35a894d6e2fa6a615df9315834aadafd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 13/27] fix: locate points in non-convex polygons

Requiring the same side of every edge is the test for a convex polygon; points
inside a concave one were reported outside. Count the edges crossed by the ray
to the right of the point instead.
---
 src/algorithm/location/point_2_polygon_2.rs | 37 +++++++--------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..5b74c5d 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +42,21 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
+    let mut inside = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
+        let source_above = edge.source().y() > point.y();
+        let target_above = edge.target().y() > point.y();
         match edge_location {
             Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
+            Point2Segment2Location::Left if target_above && !source_above => inside = !inside,
+            Point2Segment2Location::Right if source_above && !target_above => inside = !inside,
             _ => {}
         }
     }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
-        }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
     }
 }
-- 
2.43.0


From f0d3cd6279f5d6fa7558734037fe00ad300b23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 14/27] hook: expose data_structure under cfg(rcgal_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..2788e2e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,8 @@
 pub mod algorithm;
+#[cfg(not(rcgal_verif))]
 mod data_structure;
+#[cfg(rcgal_verif)]
+pub mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
-- 
2.43.0


From 1ffbb8041a609292eb4f2d430e130b2f86dd4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 15/27] fix: deleting the only node of a circular list empties
 it

---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From 8a0bb66855f5bfdb0c28e8ac88f3f2b50f4f3a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 16/27] fix: the segment sweep handles an event point once

Crossings are pushed on the event queue each time they are found, so the same
point can be popped several times; every repetition re-inserted the segments
starting there, which lost crossings and could grow without bound.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..f140ea8 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -118,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +138,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            if self.last_event_point == Some(event_point) {
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
-- 
2.43.0


From 4cb4cf906e3ef4fb4e7acd694813f8c192df72b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 17/27] fix: a polygon whose boundary touches itself is not
 simple

The sweep reports as many points as the polygon has vertices also when a
vertex lies on another edge, when the boundary folds back on itself or
repeats a vertex; every vertex must lie on exactly two edges.
---
 src/kernel/polygon_2.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..9efb106 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,7 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::{
+    intersection::sweep_segment_2_intersection::SweepSegment2Intersection,
+    location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+};
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -51,10 +54,16 @@ impl<T: NumberType> Polygon2<T> {
         }
         let intersections = sweep.intersection();
         let vertices_size = self.vertices.len();
-        if vertices_size == intersections.len() {
-            return true;
+        if vertices_size != intersections.len() {
+            return false;
         }
-        return false;
+        self.vertices.iter().all(|vertex| {
+            let count = edges
+                .iter()
+                .filter(|edge| is_point_2_on_line_segment_2(vertex, *edge))
+                .count();
+            count == 2
+        })
     }
 
     pub fn is_convex(&self) -> bool {
-- 
2.43.0


From 5de3ffa30768fda3431c9a615caae8243724ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 18/27] fix: earcut does not print to standard output

---
 src/algorithm/triangulation/earcut_2.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..d2a2ecb 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -64,7 +64,6 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
         vertices.delete(Some(ear));
-        println!("{:?}", ear_index);
         if vertices.len() > 3 {
             let (prev_vertex_type, index) = get_vertex_type(&ears, &reflexes, prev.clone());
             match prev_vertex_type {
-- 
2.43.0


From f4c0b0d37457f88e97c569385849a47124f6ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 19/27] fix: an ear does not touch another vertex

A vertex on the boundary of the triangle blocks it as well, or the diagonal
passes through it; a blocked vertex is taken out of the list it was in.
---
 src/algorithm/triangulation/earcut_2.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index d2a2ecb..aca7dee 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -210,17 +210,25 @@ fn get_vertex_type<T: NumberType>(
         Orientation::CounterClockwise => {
             for i in 0..reflexes.len() {
                 let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+                if Rc::ptr_eq(&reflex, &cur)
+                    || Rc::ptr_eq(&reflex, &prev)
+                    || Rc::ptr_eq(&reflex, &next)
+                {
                     continue;
                 }
                 let point = reflex.borrow().data.point;
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                    Point2Triangle2Location::Outside => {
+                        continue;
                     }
                     _ => {
-                        continue;
+                        let same_list = match vertex.borrow().data.vertex_type {
+                            VertexType::Ear => ears,
+                            _ => reflexes,
+                        };
+                        let index = same_list.iter().position(|x| Rc::ptr_eq(x, &cur));
+                        return (VertexType::Convex, index);
                     }
                 }
             }
@@ -261,11 +269,11 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
-                        return VertexType::Convex;
+                    Point2Triangle2Location::Outside => {
+                        continue;
                     }
                     _ => {
-                        continue;
+                        return VertexType::Convex;
                     }
                 }
             }
-- 
2.43.0


From 7e0e9aae39c28bc56f70abdf673cc27ed0235f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 20/27] fix: earcut triangulates clockwise polygons

The ears of a polygon listed clockwise are found on its reverse, with the
indices of the list that was given.
---
 src/algorithm/triangulation/earcut_2.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index aca7dee..f8852d5 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -33,14 +33,23 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
     let mut vertices = CircularDoubleLinkedList::new();
     let mut ears = Vec::new();
     let mut reflexes = Vec::new();
-    let polygon_vertices = polygon.vertices();
+    let mut polygon_vertices = polygon.vertices();
+    let clockwise = polygon.area() < T::zero();
+    if clockwise {
+        polygon_vertices.reverse();
+    }
     let mut _vertex = vertices.tail();
     for i in 0..polygon_vertices.len() {
         let vertex_type = init_vertex_type(&polygon_vertices, i);
+        let index = if clockwise {
+            polygon_vertices.len() - 1 - i
+        } else {
+            i
+        };
         _vertex = Some(vertices.insert(
             vertices.tail(),
             EarcutVertex {
-                index: i,
+                index,
                 point: polygon_vertices[i],
                 vertex_type,
             },
@@ -192,9 +201,11 @@ fn get_vertex_type<T: NumberType>(
     let cur = vertex.clone();
     let prev = cur.borrow().prev.clone().unwrap();
     let next = cur.borrow().next.clone().unwrap();
-    let mut points = vec![prev.borrow().data, cur.borrow().data, next.borrow().data];
-    points.sort_by(|a, b| a.index.cmp(&b.index));
-    let triangle = Triangle2::new(points[0].point, points[1].point, points[2].point);
+    let triangle = Triangle2::new(
+        prev.borrow().data.point,
+        cur.borrow().data.point,
+        next.borrow().data.point,
+    );
 
     match triangle.orientation() {
         Orientation::Clockwise => match vertex.borrow().data.vertex_type {
-- 
2.43.0


From e06b6bcf45b20e139653a13f715bb0c080f6d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 21/27] fix: remove an edge from a vertex by identity

Comparing edges borrows their vertices, so removing an edge that starts or ends
at the vertex itself panicked: the vertex is already mutably borrowed.
---
 src/kernel/vertex_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index 3897545..2275cc2 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -35,7 +35,7 @@ impl<T: NumberType> Vertex2<T> {
     }
 
     pub fn remove_edge(&mut self, edge: Rc<RefCell<Edge2<T>>>) {
-        self.edges.retain(|e| e != &edge);
+        self.edges.retain(|e| !Rc::ptr_eq(e, &edge));
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-- 
2.43.0


From bdaece35d08ad9d2bc425947acca8c7d17edd6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 22/27] fix: find a segment in the sweep status at the point it
 was placed

Two arcs that meet twice have equal values at the first meeting point and at
the second, where their order is reversed: looking one up at the second point
missed it, so it stayed in the status twice and crossings were lost.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index f140ea8..c3f8749 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -200,7 +200,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
                     },
                 },
-                point: event_point.clone(),
+                point: self.last_event_point.unwrap_or(*event_point),
                 segment: segment.clone(),
             })
         }
@@ -220,7 +220,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
                     },
                 },
-                point: event_point.clone(),
+                point: self.last_event_point.unwrap_or(*event_point),
                 segment: segment.clone(),
             })
         }
-- 
2.43.0


From 2c84db0c47782e3edae258433aaaac108b8173ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 23/27] fix: compare arcs in the sweep by the tangent where
 they are

The slope of an arc was taken at the event point, also when the arc passes
above or below it, so arcs meeting straight above an event were misordered.
---
 .../intersection/sweep_segment_2_intersection.rs       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index c3f8749..e0e88f5 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -678,11 +678,17 @@ fn compare_segments<T: NumberType>(
     if segment_a_value.equals(segment_b_value) {
         let segment_a_slope = match segment_a.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_a.center(),
+                &Point2::new(event_point.x(), segment_a_value),
+            ),
         };
         let segment_b_slope = match segment_b.segment_type() {
             Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
+            _ => calculate_tangent_slope(
+                &segment_b.center(),
+                &Point2::new(event_point.x(), segment_b_value),
+            ),
         };
         match segment_a_slope {
             Some(a_slope) => match segment_b_slope {
-- 
2.43.0


From 019894de2fe5a468e113b494a77124f5ea0820b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 24/27] fix: take the square root of no negative number in the
 sweep

An event that rounding puts just beside the leftmost point of an arc gave the
arc the height of the event instead of its own.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index e0e88f5..70ff073 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -599,7 +599,7 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             let radius = segment.radius();
             let center = segment.center();
             let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
+            let y = if y > T::zero() { y.sqrt() } else { T::zero() };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
-- 
2.43.0


From e5fc51c71d84b6a6e593fca4ac8e6395b3fc0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 25/27] fix: order arcs with a common tangent before the first
 of them ends

The target compared first is the greater one in the order of points; the other
one lies beyond the end of the shorter arc, where that has no value.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 70ff073..f581967 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -640,7 +640,7 @@ fn calculate_mid_value<T: NumberType>(
 ) -> (T, T) {
     let target_a = get_target_of_segment(segment_a);
     let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
+    let target = if target_a > target_b {
         target_a
     } else {
         target_b
-- 
2.43.0


From 37d4b585ce6de5157e5e08605c0b2ee41b5f7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:29 +0000
Subject: [PATCH 26/27] fix: a point that rounding puts just beyond the target
 of a segment is on it, as it is at the source

---
 src/algorithm/location/point_2_line_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..3726d7c 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -29,7 +29,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 462a12afc10aa671fe8bd41d7e856e57a7ca05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 27/27] fix: the sweep finds where curves that leave an event
 next to each other meet again

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index f581967..7d48807 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -305,6 +305,13 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
                 _ => {}
             }
+            for index in 1..mid_order_traversal.len() {
+                let left = &mid_order_traversal[index - 1];
+                let right = &mid_order_traversal[index];
+                if left.value.equals(event_point.y()) && right.value.equals(event_point.y()) {
+                    self.find_intersection_points(&left.segment, &right.segment, event_point);
+                }
+            }
         }
     }
 
-- 
2.43.0

