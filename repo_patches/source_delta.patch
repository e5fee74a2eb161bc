From beae356ce8d9ac9cf96c23f9c9d536bd91abd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 01/12] fix: euclidean rect-rect distance is the gap between
 the rects, not a negative difference

---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..c366d05 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the gap in y, which is the positive one
+        // of the two differences, and similarly for y-overlaps
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From b4b31261e7432c65a51de8eb6c769fec61be8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 02/12] fix: find_r keeps cells at distance exactly r, so data
 at distance r (or 0) are found

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From 8242f7958fd825fe59cbf6299ecf02bbae2cc6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/12] fix: knn with k = 0 returns no results

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..7289b22 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // No results requested
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 519dfcb9d3769bf10236b1c5ed8f888127f05288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 04/12] fix: haversine distance of antipodal points is pi, not
 NaN

---
 src/geom/spherical/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..74f68b2 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -95,6 +95,10 @@ where
     let a = (delta_theta / two).sin().powi(2)
         + theta1.cos() * theta2.cos() * (delta_lambda / two).sin().powi(2);
 
+    // Rounding can push this just above one for antipodal points, where asin
+    // is undefined
+    let a = if a > T::one() { T::one() } else { a };
+
     two * a.sqrt().asin()
 }
 
-- 
2.43.0


From bf0004ccd82f7167d59dca3d94ecffee27d709b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 05/12] fix: spherical point-rect distance uses the closest
 point of the meridian edges, either way round

---
 src/geom/spherical/math.rs | 46 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 74f68b2..7da7339 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -168,6 +168,29 @@ where
     min_dist
 }
 
+/// Calculate the great circle distance between a [`Point`] and the part of the
+/// meridian at `lng` between the latitudes `lat1` and `lat2`.
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, lat1: T, lat2: T) -> T
+where
+    T: GeoFloat,
+{
+    let (x, y) = pt.x_y();
+
+    // The latitude where the meridian's great circle comes closest to the point
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
+
+    let d1 = dist_pt_pt(pt, &p!(lng, lat1));
+    let d2 = dist_pt_pt(pt, &p!(lng, lat2));
+    let d = if d1 < d2 { d1 } else { d2 };
+
+    if lat > lat1 && lat < lat2 {
+        let d3 = dist_pt_pt(pt, &p!(lng, lat));
+        if d3 < d { d3 } else { d }
+    } else {
+        d
+    }
+}
+
 /// Calculate the great circle distance between a [`Point`] and a [`Rect`]
 /// using the Haversine formula.
 ///
@@ -185,17 +208,18 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
+    // When the point is outside the lngs of the rect, the closest point is on
+    // one of the two edges along meridians. Try both, as the shortest way may
+    // lead across the antimeridian or over a pole.
+    if x < rect.min().x || x > rect.max().x {
+        let d1 = dist_pt_meridian(pt, rect.min().x, rect.min().y, rect.max().y);
+        let d2 = dist_pt_meridian(pt, rect.max().x, rect.min().y, rect.max().y);
+
+        return if d1 < d2 { d1 } else { d2 };
+    }
+
+    // Otherwise the closest point is straight below or above the point
+    let line = if y < rect.min().y {
         // smallest y-value
         l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
     } else {
-- 
2.43.0


From 7241cb5cb6d5e82b43889b47021a6efa2285de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 06/12] fix: spherical point-line distance projects onto the
 line across the antimeridian

---
 src/geom/spherical/math.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 7da7339..5dbdc2b 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -119,6 +119,12 @@ where
     let (x1, y1) = line.start_point().x_y();
     let (x2, y2) = line.end_point().x_y();
 
+    // The line does not cross the antimeridian, but the shortest way to it may,
+    // so take the lng of the point that is closest to the middle of the line
+    let two = T::one() + T::one();
+    let turn = T::from(PI).unwrap() * two;
+    let x = x + (((x1 + x2) / two - x) / turn).round() * turn;
+
     let (a, b, c, d) = (x - x1, y - y1, x2 - x1, y2 - y1);
 
     let dot = a * c + b * d;
-- 
2.43.0


From 8a0c75cfe5aa440efa1f977d7af4e68ea28ff6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 07/12] fix: sorted does not recurse once per visited node,
 which overflowed the stack on large trees

---
 src/quadtrees/sorted.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..a71e57e 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -24,7 +24,26 @@ where
 {
     type Item = (&'a D, T);
 
+    // Loops rather than recurses, as any number of nodes may have to be
+    // processed before the next child surfaces
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            if let Some(item) = self.step()? {
+                return Some(item);
+            }
+        }
+    }
+}
+
+impl<'a, N, D, T> SortIter<'a, N, D, T>
+where
+    N: Node<D, T>,
+    D: AsGeom<T>,
+    T: QtFloat,
+{
+    /// Process the next stack item. Returns `None` at the end of the stack, and
+    /// `Some(None)` if the item was a node, which produces no result itself.
+    fn step(&mut self) -> Option<Option<(&'a D, T)>> {
         // 1. Sort the stack in distance-descending order
         //    Only do this if the is_sorted flag is false
         if !self.is_sorted {
@@ -41,11 +60,11 @@ where
         match item {
             // 2. Process any children at the top of the stack
             //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            NodeType::Child(child) => Some(Some((child, d))),
 
             // 3. Push sub-nodes and children onto the stack
             //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
+            //    Nothing to return yet, the caller has to step again
             NodeType::Node(node) => {
                 for child in node.children() {
                     if let Some(d) = self
@@ -72,7 +91,7 @@ where
                 }
 
                 self.is_sorted = false;
-                self.next()
+                Some(None)
             }
 
             // This is PhantomData
-- 
2.43.0


From 762eac38fc2580f31a3739fcb398690ab0ae939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 08/12] fix: haversine distance from Geometry to GeometryRef
 keeps the argument order

---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86f9798 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -165,7 +165,7 @@ where
     T: GeoFloat,
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
-        rhs.dist_haversine(self)
+        self.as_geom().dist_haversine(rhs)
     }
 }
 
-- 
2.43.0


From 9145c0fc4e2db082d0cfedb7ed4da45b38c562cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 09/12] fix: searching with an empty linestring or polygon
 returns CannotMakeBbox instead of panicking

---
 src/geom/geometry.rs | 10 ++++++++++
 src/geom/mod.rs      |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/geom/geometry.rs b/src/geom/geometry.rs
index 8e46fae..403ba30 100644
--- a/src/geom/geometry.rs
+++ b/src/geom/geometry.rs
@@ -48,6 +48,16 @@ where
     pub fn into_calc(self, method: CalcMethod) -> GeomCalc<'a, T> {
         GeomCalc { geom: self, method }
     }
+
+    /// Whether the geometry has no coordinates, and so neither a bounding box
+    /// nor a distance to anything.
+    pub(crate) fn is_empty(&self) -> bool {
+        match self {
+            GeometryRef::LineString(d) => d.0.is_empty(),
+            GeometryRef::Polygon(d) => d.exterior().0.is_empty(),
+            _ => false,
+        }
+    }
 }
 
 impl<T> BoundingRect<T> for GeometryRef<'_, T>
diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..6f91e16 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -61,6 +61,9 @@ where
     pub fn dist_geom(&self, geom: &GeometryRef<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
+            CalcMethod::Euclidean if self.geom.is_empty() || geom.is_empty() => {
+                Err(Error::CannotMakeBbox)
+            }
             CalcMethod::Euclidean => Ok(self.geom.dist_euclidean(geom)),
             CalcMethod::Spherical => self.geom.dist_haversine(geom),
         }
@@ -71,6 +74,7 @@ where
     pub fn dist_bbox(&self, bbox: &Rect<T>) -> Result<T, crate::Error> {
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
+            CalcMethod::Euclidean if self.geom.is_empty() => Err(Error::CannotMakeBbox),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
             CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
         }
-- 
2.43.0


From 17c0d59e663ae7f7b2f9e5c66cb6ac50f3c4d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 10/12] fix: spherical searches with a rect comparator prune by
 a true lower bound

---
 src/geom/mod.rs            |  7 ++++++-
 src/geom/spherical/math.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index 6f91e16..81d6bbf 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -76,7 +76,12 @@ where
             CalcMethod::None => Err(Error::CalcMethodNotSet),
             CalcMethod::Euclidean if self.geom.is_empty() => Err(Error::CannotMakeBbox),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
-            CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
+            // The distance between rects is not a lower bound for what they
+            // contain, so it cannot be used to rule out a bbox
+            CalcMethod::Spherical => match self.geom {
+                GeometryRef::Rect(d) => Ok(spherical::math::min_dist_rect_rect(bbox, d)),
+                _ => bbox.dist_haversine(&self.geom),
+            },
         }
     }
 }
diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 5dbdc2b..d80d272 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -320,6 +320,39 @@ where
     }
 }
 
+/// Calculate the least great circle distance between any two points of two
+/// [`Rect`]'s.
+///
+/// This is never more than [`dist_rect_rect`], which only looks at corners and
+/// shared latitudes and misses that meridian edges get closer towards a pole.
+pub(crate) fn min_dist_rect_rect<T>(r1: &Rect<T>, r2: &Rect<T>) -> T
+where
+    T: GeoFloat,
+{
+    let overlap_x = r1.max().x >= r2.min().x && r2.max().x >= r1.min().x;
+
+    // These cases are exact: overlapping, or straight above each other
+    if overlap_x {
+        return dist_rect_rect(r1, r2);
+    }
+
+    // Otherwise the closest points are on meridian edges, and at least one of
+    // them is a corner
+    let mut min_dist = T::infinity();
+    for (a, b) in [(r1, r2), (r2, r1)] {
+        for x in [a.min().x, a.max().x] {
+            for y in [a.min().y, a.max().y] {
+                let d = dist_pt_rect(&p!(x, y), b);
+                if d < min_dist {
+                    min_dist = d;
+                }
+            }
+        }
+    }
+
+    min_dist
+}
+
 /// Calculate the great circle distance between a [`Point`] and an arbitrary [`Polygon`] using the
 /// Haversine formula.
 ///
-- 
2.43.0


From 7f3dbc036eeaa0bbfd874406c3898c796ca71292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 11/12] fix: euclidean distance to cells too small to be
 squared (deep f32 trees) is not NaN

---
 src/geom/euclidean/dist.rs | 18 +++++++++---------
 src/geom/euclidean/math.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/geom/euclidean/dist.rs b/src/geom/euclidean/dist.rs
index 4ed7584..be7cfb3 100644
--- a/src/geom/euclidean/dist.rs
+++ b/src/geom/euclidean/dist.rs
@@ -1,6 +1,6 @@
 use geo::{Distance, Euclidean, Line, LineString, Point, Polygon, Rect};
 
-use super::math::dist_rect_rect;
+use super::math::{dist_rect_rect, rect_to_polygon};
 use crate::{AsGeom, Geometry, GeometryRef, geom::QtFloat};
 
 /// Trait applied to all valid geometries to calculate the Euclidean distance
@@ -25,7 +25,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => Euclidean::distance(self, &rect_to_polygon(d)),
         }
     }
 }
@@ -49,7 +49,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => Euclidean::distance(self, &rect_to_polygon(d)),
         }
     }
 }
@@ -73,7 +73,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => Euclidean::distance(self, &rect_to_polygon(d)),
         }
     }
 }
@@ -97,7 +97,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => Euclidean::distance(self, &rect_to_polygon(d)),
         }
     }
 }
@@ -117,10 +117,10 @@ where
 {
     fn dist_euclidean(&self, rhs: &GeometryRef<T>) -> T {
         match rhs {
-            &GeometryRef::Point(d) => Euclidean::distance(&self.to_polygon(), d),
-            &GeometryRef::Line(d) => Euclidean::distance(&self.to_polygon(), d),
-            &GeometryRef::LineString(d) => Euclidean::distance(&self.to_polygon(), d),
-            &GeometryRef::Polygon(d) => Euclidean::distance(&self.to_polygon(), d),
+            &GeometryRef::Point(d) => Euclidean::distance(&rect_to_polygon(self), d),
+            &GeometryRef::Line(d) => Euclidean::distance(&rect_to_polygon(self), d),
+            &GeometryRef::LineString(d) => Euclidean::distance(&rect_to_polygon(self), d),
+            &GeometryRef::Polygon(d) => Euclidean::distance(&rect_to_polygon(self), d),
             &GeometryRef::Rect(d) => dist_rect_rect(self, d),
         }
     }
diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index c366d05..1255070 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -1,4 +1,4 @@
-use geo::{Distance, Euclidean, Rect, coord};
+use geo::{Distance, Euclidean, Polygon, Rect, coord};
 
 use crate::geom::QtFloat;
 
@@ -35,6 +35,30 @@ where
     }
 }
 
+/// Convert a [`Rect`] to a [`Polygon`] to measure a distance to.
+///
+/// The distance to a segment divides by its squared length, so sides that are
+/// too short to be squared without underflow (as those of very deep nodes can
+/// be) are widened until they can be. This never increases a distance, and is
+/// far below the precision of any.
+pub(crate) fn rect_to_polygon<T>(r: &Rect<T>) -> Polygon<T>
+where
+    T: QtFloat,
+{
+    let two = T::one() + T::one();
+    let tiny = T::min_positive_value().sqrt() * two;
+    let widen = |min: T, max: T| {
+        if max > min && max - min < tiny {
+            min + tiny
+        } else {
+            max
+        }
+    };
+
+    let max = coord!(x: widen(r.min().x, r.max().x), y: widen(r.min().y, r.max().y));
+    Rect::new(r.min(), max).to_polygon()
+}
+
 #[cfg(test)]
 mod tests {
     // TODO: Write tests for rect-rect dist
-- 
2.43.0


From 89702d7427c12dc2b417d40aba0c9d66066ca000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 12/12] fix: sorted remembers that its stack is in order

The flag was never set, so every step sorted the whole stack again and
draining n results took time quadratic in n.
---
 src/quadtrees/sorted.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index a71e57e..6a1ab30 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -51,6 +51,7 @@ where
                 d2.partial_cmp(d1)
                     .expect("Unreachable, NaN distances already removed.")
             });
+            self.is_sorted = true;
         }
 
         // 2. Return early if the stack is empty
-- 
2.43.0

