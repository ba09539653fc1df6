From 001924dc0ad75b54f577a3e4391a1c3b334abe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/30] fix: collision queries no longer print to standard
 output

The collision-only and distance-only GJK variants used println! where the
other variants use trace!.
---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..ce1ca96 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From 991317d89c19606385832a9e25e2168a7e5c9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/30] fix: GJK distance queries misjudge separated shapes

For separated shapes distance_to could answer None or an inaccurate vector and
sdfv could panic ('Simplex collided after collision was no longer possible').
Drop the vertices that are not part of the feature closest to the origin, stop
once a support point no longer improves the distance sufficiently (as sdfv
already did) and keep the last distance when rounding makes the simplex capture
the origin although a separating axis is known.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 35 ++++++++++-----------
 src/col2d/shape/local_minkowski_diff/v.rs   | 20 ++++++++++--
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..260d855 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
@@ -170,6 +170,7 @@ impl Simplex2d {
                     let ab_perp = ab.cross_aba(ao);
                     (false, ab_perp)
                 } else {
+                    self.0.points = vec![a];
                     (false, ao)
                 }
             }
@@ -198,27 +199,23 @@ impl Simplex2d {
 
                 trace!("points before: {:?}", self.0.points);
 
-                if same_direction(ab_perp, ao) {
-                    if same_direction(ab, ao) {
-                        trace!("same direction ab ao");
-                        self.0.points = vec![a, b];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ab_perp)
-                    } else {
-                        trace!("opposite direction ab ao");
-                        self.0.points = vec![a, c];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ac_perp)
-                    }
-                    // trace!("same direction ab_perp ao");
-                    // self.0.points = vec![a, b];
-                    // trace!("points after: {:?}", self.0.points);
-                    // (false, ab_perp)
-                } else if same_direction(ac_perp, ao) {
-                    trace!("same direction ac_perp ao");
+                let outside_ab = same_direction(ab_perp, ao);
+                let outside_ac = same_direction(ac_perp, ao);
+                if outside_ab && same_direction(ab, ao) {
+                    trace!("same direction ab ao");
+                    self.0.points = vec![a, b];
+                    trace!("points after: {:?}", self.0.points);
+                    (false, ab_perp)
+                } else if outside_ac && same_direction(ac, ao) {
+                    trace!("same direction ac ao");
                     self.0.points = vec![a, c];
                     trace!("points after: {:?}", self.0.points);
                     (false, ac_perp)
+                } else if outside_ab || outside_ac {
+                    trace!("closest to vertex a");
+                    self.0.points = vec![a];
+                    trace!("points after: {:?}", self.0.points);
+                    (false, ao)
                 } else {
                     trace!("captured the origin");
                     (true, Vec2::NAN)
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index ce1ca96..e04175b 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -68,19 +68,31 @@ where
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
 
+        let mut collision_possible = true;
+
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
+                collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
             last_a = a;
 
+            let last_distance = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
+            if collides && !collision_possible {
+                // The new point is numerically indistinguishable from the closest feature.
+                return (false, last_distance);
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
                 // panic!("new direction too small: {new_direction:?}");
@@ -210,10 +222,12 @@ where
             }
             last_a = a;
 
+            let last_distance = simplex.distance_to_origin();
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                // The new point is numerically indistinguishable from the closest feature.
+                warn!("Simplex collided after collision was no longer possible");
+                return (false, last_distance);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
-- 
2.43.0


From 87847a926e6f53e8d5843a925ef552a86c7bb3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 03/30] fix: GJK depends on the absolute size of the shapes

Search directions grew with the cube of the shape size and were compared with an
absolute threshold, so that small shapes (about 0.01 units) got wrong verdicts
and distances and huge ones overflowed. Use unit directions and a relative test
for the origin lying on the simplex.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 260d855..b9db54a 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -152,7 +152,16 @@ impl Simplex2d {
         })
     }
 
+    /// Adds a point to the simplex.
+    ///
+    /// Returns whether the simplex contains the origin and the (unit length) direction to search
+    /// next. The direction is zero when the origin lies on the simplex.
     fn add_point(&mut self, point: Vec2) -> (bool, Vec2) {
+        let (collides, direction) = self.add_point_unnormalized(point);
+        (collides, direction.normalize_or_zero())
+    }
+
+    fn add_point_unnormalized(&mut self, point: Vec2) -> (bool, Vec2) {
         self.0.points.insert(0, point);
         trace!(
             "{} simplex points: {:?}",
@@ -164,7 +173,7 @@ impl Simplex2d {
             2 => {
                 let a = self.0.points[0];
                 let b = self.0.points[1];
-                let ab = b - a;
+                let ab = (b - a).normalize_or_zero();
                 let ao = -a;
                 if ab.dot(ao) >= 0.0 {
                     let ab_perp = ab.cross_aba(ao);
@@ -178,8 +187,8 @@ impl Simplex2d {
                 let a = self.0.points[0];
                 let b = self.0.points[1];
                 let c = self.0.points[2];
-                let ab = b - a;
-                let ac = c - a;
+                let ab = (b - a).normalize_or_zero();
+                let ac = (c - a).normalize_or_zero();
                 let ao = -a;
 
                 trace!("a: {}", a);
@@ -319,6 +328,10 @@ impl Cross2d for Vec2 {
 
     fn cross_aba(self, other: Self) -> Self {
         let cross = self.cross(other);
+        // The cross product of (almost) parallel vectors is only rounding noise.
+        if cross.abs() <= f32::EPSILON * self.length() * other.length() {
+            return Vec2::ZERO;
+        }
         Vec2::new(-self.y * cross, self.x * cross)
     }
 
-- 
2.43.0


From 3266b34ff64680b4ff7d721d4316de65ec29732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 04/30] fix: penetration of overlapping shapes could be
 reported as zero

When EPA ran out of iterations (a ball deep inside a polygon) the penetration
vector was Vec2::ZERO. Allow the iterations the required precision needs and
fall back to the shortest separation found.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 21 +++++++++++++++++----
 src/col2d/shape/local_minkowski_diff/v.rs   |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index b9db54a..949c190 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -79,6 +79,10 @@ impl EpaPoly2d {
             self.0.points
         );
 
+        // Every examined direction separates the shapes, `best` is the shortest one found so far.
+        let mut best = Vec2::ZERO;
+        let mut best_length_squared = f32::INFINITY;
+
         for _i in 0..iteration_limit {
             trace!("[EPA] iteration {}", _i);
             let (edge_index, a, b) = self.find_closest_edge();
@@ -92,15 +96,21 @@ impl EpaPoly2d {
             let fitness_to_beat = a.dot(normal);
             trace!("fitness to beat: {}", fitness_to_beat);
 
+            let denom = normal.dot(normal);
+            trace!("denom: {}", denom);
+            let separation = normal * (-fitness / denom);
+            if separation.length_squared() < best_length_squared {
+                best = separation;
+                best_length_squared = separation.length_squared();
+            }
+
             if !is_a_sufficiently_better_than_b(
                 fitness,
                 fitness_to_beat,
                 DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
             ) {
                 trace!("EPA converged");
-                let denom = normal.dot(normal);
-                trace!("denom: {}", denom);
-                return normal * (-fitness / denom);
+                return separation;
             }
 
             trace!("splitting edge at index {}", edge_index);
@@ -110,7 +120,7 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        best
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
@@ -342,6 +352,9 @@ impl Cross2d for Vec2 {
 
 const DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED: f32 = 0.01;
 
+/// Bounding a ball to the required precision takes more iterations than GJK needs.
+const EPA_ITERATION_LIMIT: usize = 64;
+
 fn is_a_sufficiently_better_than_b(a: f32, b: f32, t: f32) -> bool {
     if b > 0.0 {
         return a > b * (1.0 + t);
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index e04175b..2be3a0e 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -160,7 +160,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
@@ -247,7 +247,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
-- 
2.43.0


From f10534e9612ef0f9e14590eaf609030f4a6b4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/30] fix: box-ball penetration when the ball is centered on
 a box side's line

With the center exactly on the line of a side, the outside formulas were applied
to the other axis, giving a vector that is not the smallest penetration.
---
 src/col2d/shape/rounded_box2d/v_point.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..e076352 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -8,15 +8,15 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let delta_x = delta.x.abs() - self.halfsize.x;
         let delta_y = delta.y.abs() - self.halfsize.y;
 
-        if self.box_part().collides_rel(&Point, rel) {
+        if delta_x <= 0.0 && delta_y <= 0.0 {
             if delta_x > delta_y {
                 (
-                    true,
+                    delta_x < self.radius,
                     Vec2::new((delta_x - self.radius) * delta.x.signum(), 0.0),
                 )
             } else {
                 (
-                    true,
+                    delta_y < self.radius,
                     Vec2::new(0.0, (delta_y - self.radius) * delta.y.signum()),
                 )
             }
-- 
2.43.0


From 65460e14a4ff87a824fcc4b7df9e503c29412334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 06/30] fix: scalar signed distance between a box and a ball

It measured the ball's point facing the box center instead of the ball's point
closest to the box and combined the axes with min when overlapping.
---
 src/col2d/shape/box2d/v_ball.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..436833a 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        rounded_box.sdf_rel(&Point, rel)
     }
 }
-- 
2.43.0


From 221c012689a6ab9e27b9281fed721edd89a94203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 07/30] fix: ball and point queries ignore the scale of the
 relative transform

The radius of the other ball was not scaled (unlike Ball::extreme_point_t and
the Minkowski based pairs), and the reversed point queries returned a vector in
the other shape's units.
---
 src/col2d/shape/ball2d/v_ball2d.rs | 4 ++--
 src/col2d/shape/box2d/v_ball.rs    | 4 ++--
 src/col2d/shape/point2d.rs         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 3549fba..8e73aa1 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -4,7 +4,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Ball
 {
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         let length = delta.length();
         if length > 0.0 {
@@ -19,7 +19,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Ball {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         delta.length() - radius
     }
diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 436833a..f65bea0 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -6,7 +6,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Box2d
 {
     fn sdfv_common_rel(&self, t: &Ball, rel: &T) -> (bool, Vec2) {
-        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * t.radius);
         SdfvCommonRel2d::<COMPUTE_PENETRATION, COMPUTE_DISTANCE, _, T>::sdfv_common_rel(
             &rounded_box,
             &Point,
@@ -17,7 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * b.radius);
         rounded_box.sdf_rel(&Point, rel)
     }
 }
diff --git a/src/col2d/shape/point2d.rs b/src/col2d/shape/point2d.rs
index bb944d7..6236efa 100644
--- a/src/col2d/shape/point2d.rs
+++ b/src/col2d/shape/point2d.rs
@@ -45,7 +45,7 @@ macro_rules! impl_reverse_sdfv_common_rel {
                 let (collides, sdfv) =
                     SdfvCommonRel2d::<P, D, $a, T>::sdfv_common_rel(b, self, &inv_rel);
                 let negated_sdfv = -sdfv;
-                let transformed_sdfv = rel.apply_normal(negated_sdfv);
+                let transformed_sdfv = rel.scaling_factor() * rel.apply_normal(negated_sdfv);
                 (collides, transformed_sdfv)
             }
         }
-- 
2.43.0


From 4f559d3e007ddbba24a7b0b050f0aed00fdca5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/30] fix: collider queries return vectors and distances in
 world space

penetrates and distance_to returned the vector in the first collider's local
orientation (sdfv already rotated it back) and none of the queries undid the
first collider's scale.
---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 src/col2d/detection/sdf.rs         | 2 +-
 src/col2d/detection/sdfv.rs        | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..39eb8a0 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let distance_local = a.shape.distance_to_rel(b.shape, &rel)?;
+        Some(a.transform.scaling_factor() * a.transform.apply_normal(distance_local))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..26bf1a2 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let penetration_local = a.shape.penetrates_rel(b.shape, &rel)?;
+        Some(a.transform.scaling_factor() * a.transform.apply_normal(penetration_local))
     }
 }
diff --git a/src/col2d/detection/sdf.rs b/src/col2d/detection/sdf.rs
index 9564b59..20c6b27 100644
--- a/src/col2d/detection/sdf.rs
+++ b/src/col2d/detection/sdf.rs
@@ -72,6 +72,6 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.sdf_rel(b.shape, &rel)
+        a.transform.scaling_factor() * a.shape.sdf_rel(b.shape, &rel)
     }
 }
diff --git a/src/col2d/detection/sdfv.rs b/src/col2d/detection/sdfv.rs
index 355ee79..de03161 100644
--- a/src/col2d/detection/sdfv.rs
+++ b/src/col2d/detection/sdfv.rs
@@ -72,7 +72,7 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let (collides, sdfv_local) = a.shape.sdfv_rel(b.shape, &rel);
-        let sdfv = a.transform.apply_normal(sdfv_local);
+        let sdfv = a.transform.scaling_factor() * a.transform.apply_normal(sdfv_local);
         (collides, sdfv)
     }
 }
-- 
2.43.0


From f7084e90e60f815faa7b21b5e56731a1a65f073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/30] fix: inverse of axis-aligned scaling transforms

The translation of the inverse was not scaled, so that inverse().apply did not
undo apply.
---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 src/col3d/transformation3d/axis_transform3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..2012b0f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 7b4a560..48db74f 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,7 +29,7 @@ impl Transformation3d for AxisTransform3d {
 impl Invertible for AxisTransform3d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: -self.pos / self.scale,
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 0e36088d8a332b78ab3713340dc298af2680eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/30] fix: Rotor2d::from_quaternion scales shapes tilted out
 of the XY plane

The quaternion part outside of the XY plane was dropped without normalizing the
rest, giving a rotor that is not a rotation.
---
 src/col2d/transformation2d/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..156424c 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -107,7 +107,11 @@ impl Rotor2d {
 
     /// Ignore rotation outside of the XY plane.
     pub fn from_quaternion(quat: crate::Quat) -> Rotor2d {
-        let norm = quat.dot(quat).sqrt();
+        // Keep only the rotation about the Z axis.
+        let norm = (quat.w * quat.w + quat.z * quat.z).sqrt();
+        if norm == 0.0 {
+            return Self::IDENTITY;
+        }
         let w = quat.w / norm;
         let z = quat.z / norm;
 
-- 
2.43.0


From 8a31015faa2d084f526360236b5ce8c0134ad149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 11/30] fix: Rect2i32::pad moves the rectangle instead of
 growing it

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From 547df99cd6f8a030476adf163f26de31d8ea1b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 12/30] fix: Tilemap::remove_tile events do not match what
 changed

It announced the removal of chunks that never existed and stayed silent when it
cleared a tile of a chunk that keeps other tiles.
---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..27119b9 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|tile| *tile != 0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From 71e221362e7bb7939cbd8359fb07a33e6ef83382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 13/30] fix: approximate vector comparison accepts NaN, huge
 and tiny different vectors

NaN against zero, and vectors whose squared length overflows or underflows,
always compared as approximately equal.
---
 src/utils/approx.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..da82c07 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -37,11 +37,6 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() {
             return false;
@@ -51,6 +46,16 @@ impl Approx for Vec2 {
             return self == other;
         }
 
+        // Work in units of the largest component, squares must not overflow or underflow.
+        let unit = self.abs().max_element().max(other.abs().max_element());
+        if unit == 0.0 {
+            return true;
+        }
+        let magn_sq = (*self / unit)
+            .length_squared()
+            .max((*other / unit).length_squared());
+        let error = error / unit;
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
@@ -73,11 +78,6 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
             return false;
@@ -87,6 +87,16 @@ impl Approx for Vec3 {
             return self == other;
         }
 
+        // Work in units of the largest component, squares must not overflow or underflow.
+        let unit = self.abs().max_element().max(other.abs().max_element());
+        if unit == 0.0 {
+            return true;
+        }
+        let magn_sq = (*self / unit)
+            .length_squared()
+            .max((*other / unit).length_squared());
+        let error = error / unit;
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
-- 
2.43.0


From dcc3045307292eb2dcb2f71001bb25e35e9eaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 14/30] fix: the 3d feature does not compile

Box3d relied on Minkowski traits that no longer exist. Restore them for the 3D
shapes so that the documented box-box and ball-ball queries work again.
---
 src/col3d/default_impls.rs |  4 ----
 src/col3d/minkowski.rs     | 30 ++++++++++++++++++++++++++++++
 src/col3d/mod.rs           |  2 ++
 src/col3d/shape/ball3d.rs  | 10 ++++++++++
 4 files changed, 42 insertions(+), 4 deletions(-)
 create mode 100644 src/col3d/minkowski.rs

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 234d8cb..031b924 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -14,7 +14,6 @@ where
     }
 }
 
-#[cfg(minkowski)]
 impl<A, B, C> CollidesRel3d<B> for A
 where
     A: DefaultCol3dImpls,
@@ -36,7 +35,6 @@ where
     }
 }
 
-#[cfg(minkowski)]
 impl<A, B, C> PenetratesRel3d<B> for A
 where
     A: DefaultCol3dImpls,
@@ -48,7 +46,6 @@ where
     }
 }
 
-#[cfg(minkowski)]
 impl<A, B, C> SdfRel3d<B> for A
 where
     A: DefaultCol3dImpls,
@@ -70,7 +67,6 @@ where
     }
 }
 
-#[cfg(minkowski)]
 impl<A, B, C> SdfvRel3d<B> for A
 where
     A: DefaultCol3dImpls,
diff --git a/src/col3d/minkowski.rs b/src/col3d/minkowski.rs
new file mode 100644
index 0000000..b6c5346
--- /dev/null
+++ b/src/col3d/minkowski.rs
@@ -0,0 +1,30 @@
+/// Minkowski sum of two shapes.
+pub trait MinkowskiSum<T> {
+    type Output;
+
+    /// Computes the Minkowski sum of `self` and `t`.
+    fn minkowski_sum(&self, t: &T) -> Self::Output;
+}
+
+/// Marker trait for shapes symmetric about the origin.
+pub trait MinkowskiNegationIsIdentity {}
+
+/// Minkowski difference of two shapes.
+pub trait MinkowskiDifference<T> {
+    type Output;
+
+    /// Computes the Minkowski difference of `self` and `t`.
+    fn minkowski_difference(&self, t: &T) -> Self::Output;
+}
+
+impl<A, B> MinkowskiDifference<B> for A
+where
+    A: MinkowskiSum<B>,
+    B: MinkowskiNegationIsIdentity,
+{
+    type Output = A::Output;
+
+    fn minkowski_difference(&self, t: &B) -> Self::Output {
+        self.minkowski_sum(t)
+    }
+}
diff --git a/src/col3d/mod.rs b/src/col3d/mod.rs
index a16d3e6..aaf1504 100644
--- a/src/col3d/mod.rs
+++ b/src/col3d/mod.rs
@@ -21,12 +21,14 @@
 pub use crate::{Quat, Vec2, Vec3};
 
 mod detection;
+mod minkowski;
 mod shape;
 mod transformation3d;
 mod default_impls;
 
 pub use crate::col::*;
 pub use detection::*;
+pub use minkowski::*;
 pub use shape::*;
 pub use transformation3d::*;
 pub use default_impls::*;
diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 46f4881..1cce389 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -14,6 +14,16 @@ impl ExtremePoint3d for Ball {
     }
 }
 
+impl MinkowskiNegationIsIdentity for Ball {}
+
+impl MinkowskiSum<Ball> for Ball {
+    type Output = Self;
+
+    fn minkowski_sum(&self, t: &Ball) -> Self::Output {
+        Self::Output::with_radius(self.radius + t.radius)
+    }
+}
+
 // Collides
 
 impl CollidesRel3d<Point> for Ball {
-- 
2.43.0


From 84820e5ebfa8dd54f26d3c207fced57918ace484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 15/30] fix: features 3d and bevy do not compile together

The module file was moved to col/bevy_transform.rs, its declaration stayed.
---
 src/col3d/transformation3d/mod.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/col3d/transformation3d/mod.rs b/src/col3d/transformation3d/mod.rs
index 24e4187..6146467 100644
--- a/src/col3d/transformation3d/mod.rs
+++ b/src/col3d/transformation3d/mod.rs
@@ -9,9 +9,3 @@ pub use axis_transform3d::*;
 pub use isotropic3d::*;
 pub use transform3d::*;
 pub use translate3d::*;
-
-#[cfg(feature = "bevy")]
-mod bevy_transform;
-#[cfg(feature = "bevy")]
-pub use bevy_transform::*;
-
-- 
2.43.0


From f04b15efe987fda0f14f176fdb72b744e2024e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 16/30] fix: Box3d::cover ignores the z axis

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 5c6ed54..1f8f6e8 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -17,8 +17,10 @@ impl Box3d {
     pub fn cover(&mut self, point: &Vec3) {
         let x = point.x.abs();
         let y = point.y.abs();
+        let z = point.z.abs();
         self.halfsize.x = self.halfsize.x.max(x);
         self.halfsize.y = self.halfsize.y.max(y);
+        self.halfsize.z = self.halfsize.z.max(z);
     }
 }
 
-- 
2.43.0


From 33df5a3d9e05b3768354c74929972be91d3ad4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 17/30] fix: Box3d scalar distance to a point above or below
 the box

Outside of the z slab a negative x or y delta was included in the length.
---
 src/col3d/shape/box3d.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 1f8f6e8..38e8cb8 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -117,23 +117,9 @@ impl SdfRel3d<Point> for Box3d {
         if self.collides_rel(t, rel) {
             delta_x.max(delta_y).max(delta_z)
         } else {
-            if delta_z < 0.0 {
-                if delta_x < 0.0 {
-                    delta_y
-                } else if delta_y < 0.0 {
-                    delta_x
-                } else {
-                    Vec2::new(delta_x, delta_y).length()
-                }
-            } else {
-                if delta_x < 0.0 {
-                    Vec2::new(delta_z, delta_y).length()
-                } else if delta_y < 0.0 {
-                    Vec2::new(delta_z, delta_x).length()
-                } else {
-                    Vec3::new(delta_x, delta_y, delta_z).length()
-                }
-            }
+            Vec3::new(delta_x, delta_y, delta_z)
+                .max(Vec3::ZERO)
+                .length()
         }
     }
 }
-- 
2.43.0


From e02f2f3c7e1a8112f9e31f05e70d511f89844a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 18/30] fix: reversed 3D point queries ignore rotation and
 scale of the relative transform

---
 src/col3d/default_impls.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 031b924..761cbf8 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -10,7 +10,7 @@ where
     A: CollidesRel3d<Point>,
 {
     fn collides_rel(&self, other: &A, rel: &impl Transformation3d) -> bool {
-        other.collides_rel(&Point, rel)
+        other.collides_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -31,7 +31,8 @@ where
     A: PenetratesRel3d<Point>,
 {
     fn penetrates_rel(&self, other: &A, rel: &impl Transformation3d) -> Option<Vec3> {
-        other.penetrates_rel(&Point, rel) // .map(|v| -v)
+        let v = other.penetrates_rel(&Point, &rel.unapply_origin())?;
+        Some(rel.apply_origin() - rel.apply(v))
     }
 }
 
@@ -63,7 +64,7 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, rel)
+        t.sdf_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -84,6 +85,7 @@ where
     A: SdfvRel3d<Point>,
 {
     fn sdfv_rel(&self, t: &A, rel: &impl Transformation3d) -> Vec3 {
-        t.sdfv_rel(&Point, rel)
+        let v = t.sdfv_rel(&Point, &rel.unapply_origin());
+        rel.apply_origin() - rel.apply(v)
     }
 }
-- 
2.43.0


From d9844cc74f291b160e59c1a681026fe3b12b766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 19/30] fix: 3D penetration between colliders ignores their own
 rotation and scale

---
 src/col3d/detection/penetrates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col3d/detection/penetrates.rs b/src/col3d/detection/penetrates.rs
index 8e22c8c..af6d2a4 100644
--- a/src/col3d/detection/penetrates.rs
+++ b/src/col3d/detection/penetrates.rs
@@ -61,6 +61,7 @@ where
 {
     fn penetrates(&self, transform: &T, t: &B, t_transform: &T) -> Option<Vec3> {
         let rel = transform.delta_transform(t_transform);
-        self.penetrates_rel(t, &rel)
+        let penetration_local = self.penetrates_rel(t, &rel)?;
+        Some(transform.apply(penetration_local) - transform.apply_origin())
     }
 }
-- 
2.43.0


From fc9d74eb2b524afd55aac6800769a1f81722647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 20/30] fix: extreme points of non-uniformly scaled shapes

---
 src/col2d/detection/extreme_point.rs         | 2 +-
 src/col2d/shape/local_minkowski_diff/mod.rs  | 2 +-
 src/col2d/transformation2d/bevy_transform.rs | 4 ++++
 src/col2d/transformation2d/mod.rs            | 8 ++++++++
 src/col2d/transformation2d/transform2d.rs    | 4 ++++
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/extreme_point.rs b/src/col2d/detection/extreme_point.rs
index 29adc98..216ef01 100644
--- a/src/col2d/detection/extreme_point.rs
+++ b/src/col2d/detection/extreme_point.rs
@@ -30,7 +30,7 @@ pub trait ExtremePointT2d<T: Transformation2d>: ExtremePoint2d {
     /// ```
     fn extreme_point_t(&self, t: &T, direction: Vec2) -> Vec2 {
         debug!("DefaultCol2dImpls::extreme_point_t");
-        let local_direction = t.unapply_normal(direction);
+        let local_direction = t.unapply_extreme_direction(direction);
         trace!("local_direction: {:?}", local_direction);
         let local_extreme_point = self.extreme_point(local_direction);
         trace!("local_extreme_point: {:?}", local_extreme_point);
diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 949c190..c7ea513 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -49,7 +49,7 @@ where
         trace!("direction: {}", direction);
         let a_point = self.a.extreme_point(direction);
         trace!("a_point: {}", a_point);
-        let b_direction = self.rel.unapply_normal(-direction);
+        let b_direction = self.rel.unapply_extreme_direction(-direction);
         trace!("b_direction: {}", b_direction);
         let b_point = self.rel.apply(self.b.extreme_point(b_direction));
         trace!("b_point: {}", b_point);
diff --git a/src/col2d/transformation2d/bevy_transform.rs b/src/col2d/transformation2d/bevy_transform.rs
index 90590ea..99f0a06 100644
--- a/src/col2d/transformation2d/bevy_transform.rs
+++ b/src/col2d/transformation2d/bevy_transform.rs
@@ -38,6 +38,10 @@ impl Transformation2d for bevy::prelude::Transform {
     fn scaling_factor(&self) -> f32 {
         Into::<Transform2d>::into(*self).scaling_factor()
     }
+
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        Into::<Transform2d>::into(*self).unapply_extreme_direction(direction)
+    }
 }
 
 #[cfg(test)]
diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 156424c..e44a26d 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -38,6 +38,14 @@ pub trait Transformation2d {
 
     /// Get the scaling factor of the transformation.
     fn scaling_factor(&self) -> f32;
+
+    /// Inverse transform a direction to search for an extreme point along.
+    ///
+    /// The point of a shape farthest along the result is, once transformed, the point of the
+    /// transformed shape farthest along `direction`.
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.unapply_normal(direction)
+    }
 }
 
 impl Transformation2d for IdentityTransform {
diff --git a/src/col2d/transformation2d/transform2d.rs b/src/col2d/transformation2d/transform2d.rs
index 18f7b10..29e779e 100644
--- a/src/col2d/transformation2d/transform2d.rs
+++ b/src/col2d/transformation2d/transform2d.rs
@@ -45,6 +45,10 @@ impl Transformation2d for Transform2d {
     fn scaling_factor(&self) -> f32 {
         self.scale.x.max(self.scale.y)
     }
+
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.scale * self.unapply_normal(direction)
+    }
 }
 
 impl Invertible for Transform2d {
-- 
2.43.0


From 613d013249ec95bcd2a1254912cf1e07dd03333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 21/30] fix: GJK distance of touching shapes could be that of a
 far feature

---
 src/col2d/shape/local_minkowski_diff/mod.rs |  2 +-
 src/col2d/shape/local_minkowski_diff/v.rs   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index c7ea513..6011886 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -267,7 +267,7 @@ impl Simplex2d {
                 info!("ao: {}", ao);
                 info!("t: {}", t);
 
-                if t <= 0.0 {
+                if t <= 0.0 || t.is_nan() {
                     info!("t <= 0.0");
                     info!("ao: {}", ao);
                     ao
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 2be3a0e..11f161d 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -69,6 +69,7 @@ where
         direction = simplex.add_point(last_a).1;
 
         let mut collision_possible = true;
+        let mut closest = simplex.distance_to_origin();
 
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
@@ -88,6 +89,9 @@ where
             last_a = a;
 
             let last_distance = simplex.distance_to_origin();
+            if last_distance.length_squared() < closest.length_squared() {
+                closest = last_distance;
+            }
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
                 // The new point is numerically indistinguishable from the closest feature.
@@ -111,7 +115,7 @@ where
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
@@ -193,6 +197,7 @@ where
         direction = simplex.add_point(last_a).1;
 
         let mut collision_possible = true;
+        let mut closest = simplex.distance_to_origin();
 
         for _i in 0..iteration_limit {
             let _human_counter = _i + 2;
@@ -223,6 +228,9 @@ where
             last_a = a;
 
             let last_distance = simplex.distance_to_origin();
+            if last_distance.length_squared() < closest.length_squared() {
+                closest = last_distance;
+            }
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
                 // The new point is numerically indistinguishable from the closest feature.
@@ -258,7 +266,7 @@ where
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
-- 
2.43.0


From 272b113a04e1f214f706933870bfd9b314b43329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 22/30] fix: GJK distance of touching or degenerate shapes
 could miss the closest feature

---
 src/col2d/shape/local_minkowski_diff/mod.rs |  7 ++-
 src/col2d/shape/local_minkowski_diff/v.rs   | 56 ++++++++++++---------
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 6011886..5d33ff6 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -282,7 +282,12 @@ impl Simplex2d {
                 }
             }
             3 => {
-                unreachable!("3 points case - is it reachable? maybe in edge cases but maybe not in most common cases");
+                let p = &self.0.points;
+                [(0, 1), (0, 2), (1, 2)]
+                    .map(|(i, j)| Self(Poly2d { points: vec![p[i], p[j]] }).distance_to_origin())
+                    .into_iter()
+                    .min_by(|a, b| a.length_squared().total_cmp(&b.length_squared()))
+                    .unwrap()
             }
             _ => unreachable!(),
         }
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 11f161d..6822d28 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -72,30 +72,30 @@ where
         let mut closest = simplex.distance_to_origin();
 
         for _ in 0..iteration_limit {
+            closest = shorter(simplex.distance_to_origin(), closest);
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
                 collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if !is_a_sufficiently_better_than_b(
-                    fitness,
-                    last_fitness,
-                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
-                ) {
-                    return (false, simplex.distance_to_origin());
+                // No progress either when the farthest point already is part of the simplex.
+                if simplex.0.points.contains(&a)
+                    || !is_a_sufficiently_better_than_b(
+                        fitness,
+                        last_fitness,
+                        DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                    )
+                {
+                    return (false, closest);
                 }
             }
             last_a = a;
 
-            let last_distance = simplex.distance_to_origin();
-            if last_distance.length_squared() < closest.length_squared() {
-                closest = last_distance;
-            }
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                // The new point is numerically indistinguishable from the closest feature.
-                return (false, last_distance);
+                // The origin is numerically indistinguishable from the simplex.
+                return (false, shorter(simplex.distance_to_origin(), closest));
             }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
@@ -200,6 +200,7 @@ where
         let mut closest = simplex.distance_to_origin();
 
         for _i in 0..iteration_limit {
+            closest = shorter(simplex.distance_to_origin(), closest);
             let _human_counter = _i + 2;
             trace!("-- iteration {_i}");
             trace!("direction: {}", direction);
@@ -214,28 +215,27 @@ where
                 collision_possible = false;
                 let last_fitness = last_a.dot(direction);
 
-                if !is_a_sufficiently_better_than_b(
-                    fitness,
-                    last_fitness,
-                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
-                ) {
+                // No progress either when the farthest point already is part of the simplex.
+                if simplex.0.points.contains(&a)
+                    || !is_a_sufficiently_better_than_b(
+                        fitness,
+                        last_fitness,
+                        DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                    )
+                {
                     trace!("fitness: {fitness} is *NOT* sufficiently better than last_fitness: {last_fitness} (break)");
                     trace!("No intersection");
-                    return (false, simplex.distance_to_origin());
+                    return (false, closest);
                 }
                 trace!("fitness: {fitness} *is* sufficiently better than last_fitness: {last_fitness} (continue)");
             }
             last_a = a;
 
-            let last_distance = simplex.distance_to_origin();
-            if last_distance.length_squared() < closest.length_squared() {
-                closest = last_distance;
-            }
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                // The new point is numerically indistinguishable from the closest feature.
+                // The origin is numerically indistinguishable from the simplex.
                 warn!("Simplex collided after collision was no longer possible");
-                return (false, last_distance);
+                return (false, shorter(simplex.distance_to_origin(), closest));
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
@@ -270,6 +270,14 @@ where
     }
 }
 
+fn shorter(a: Vec2, b: Vec2) -> Vec2 {
+    if a.length_squared() < b.length_squared() {
+        a
+    } else {
+        b
+    }
+}
+
 fn direction_is_too_small(direction: Vec2) -> bool {
     direction.length_squared() < f32::EPSILON * f32::EPSILON
 }
-- 
2.43.0


From ec54f1eb07b0b2cd4c1822c6e1fee2a70b21cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 23/30] fix: default axis-aligned and 3D transforms collapse
 everything to a point

---
 src/col2d/transformation2d/axis_transform2d.rs |  7 ++++++-
 src/col3d/transformation3d/axis_transform3d.rs |  7 ++++++-
 src/col3d/transformation3d/isotropic3d.rs      | 12 +++++++++++-
 src/col3d/transformation3d/transform3d.rs      | 12 +++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index 2012b0f..6106993 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform2d {
     pos: Vec2,
     scale: f32,
 }
 
+impl Default for AxisTransform2d {
+    fn default() -> Self {
+        Self::new(Vec2::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform2d {
     pub const fn new(pos: Vec2, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 48db74f..f31c058 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform3d {
     pos: Vec3,
     scale: f32,
 }
 
+impl Default for AxisTransform3d {
+    fn default() -> Self {
+        Self::new(Vec3::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform3d {
     pub const fn new(pos: Vec3, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index be6bc65..8795404 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Apply translation, rotation, and scale in this order:
 /// 1. Scale
 /// 2. Rotate
@@ -24,6 +24,16 @@ pub struct Isotropic3d {
 //     }
 // }
 
+impl Default for Isotropic3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: 1.0,
+        }
+    }
+}
+
 impl Transformation3d for Isotropic3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index c07e27b..b634986 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Standard 3D transform.
 ///
 /// Applies translation, rotation, and scale in this order:
@@ -37,6 +37,16 @@ impl From<Transform3d> for bevy::prelude::Transform {
     }
 }
 
+impl Default for Transform3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: Vec3::ONE,
+        }
+    }
+}
+
 impl Transformation3d for Transform3d {
     fn apply_origin(&self) -> Vec3 {
         self.pos
-- 
2.43.0


From 6db7a3c023a06e73db9469fc4a26c4b06f1c2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 24/30] fix: extreme points of shapes mirrored by an
 axis-aligned transform

---
 src/col2d/transformation2d/axis_transform2d.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index 6106993..05ecd4f 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,6 +41,10 @@ impl Transformation2d for AxisTransform2d {
     fn scaling_factor(&self) -> f32  {
         self.scale
     }
+
+    fn unapply_extreme_direction(&self, direction: Vec2) -> Vec2 {
+        self.scale * direction
+    }
 }
 
 impl Invertible for AxisTransform2d {
-- 
2.43.0


From ac2ad6a461035bb87eec24d90774c24b17c0aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 25/30] fix: imprecise vectors for balls with almost coincident
 centers

---
 src/col2d/shape/ball2d/v_ball2d.rs       | 7 ++++---
 src/col2d/shape/ball2d/v_point.rs        | 7 ++++---
 src/col2d/shape/rounded_box2d/v_point.rs | 4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 8e73aa1..20a6658 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -6,11 +6,12 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
         let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
-        let length = delta.length();
-        if length > 0.0 {
+        // Unlike `Vec2::length`, this is precise for (almost) coincident centers, too.
+        let length = delta.x.hypot(delta.y);
+        if length >= f32::MIN_POSITIVE {
             let collides = length < radius;
             let new_length = length - radius;
-            (collides, delta * (new_length / length))
+            (collides, delta / length * new_length)
         } else {
             (true, radius * Vec2::X)
         }
diff --git a/src/col2d/shape/ball2d/v_point.rs b/src/col2d/shape/ball2d/v_point.rs
index 5606a69..57c4c14 100644
--- a/src/col2d/shape/ball2d/v_point.rs
+++ b/src/col2d/shape/ball2d/v_point.rs
@@ -5,11 +5,12 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 {
     fn sdfv_common_rel(&self, _: &Point, rel: &T) -> (bool, Vec2) {
         let delta = rel.apply_origin();
-        let length = delta.length();
-        if length > 0.0 {
+        // Unlike `Vec2::length`, this is precise for (almost) coincident centers, too.
+        let length = delta.x.hypot(delta.y);
+        if length >= f32::MIN_POSITIVE {
             let collides = length < self.radius;
             let new_length = length - self.radius;
-            (collides, delta * (new_length / length))
+            (collides, delta / length * new_length)
         } else {
             (true, self.radius * Vec2::X)
         }
diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index e076352..4593b6c 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -33,8 +33,8 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
                 )
             } else {
                 let corner = Vec2::new(delta_x * delta.x.signum(), delta_y * delta.y.signum());
-                let corner_length = corner.length();
-                let corner = corner * (corner_length - self.radius) / corner_length;
+                let corner_length = corner.x.hypot(corner.y);
+                let corner = corner / corner_length * (corner_length - self.radius);
                 (corner_length < self.radius, corner)
             }
         }
-- 
2.43.0


From c3f06ef5059ad9ffe07d5d1d6df2523961bba692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 26/30] fix: 3D penetration near the center of small balls

Within f32::EPSILON of the center the vector ignored where the point is, which
is not negligible for a small ball.
---
 src/col3d/shape/ball3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 1cce389..40d0db5 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -41,7 +41,7 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center < f32::EPSILON {
+            if distance_to_center == 0.0 {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
-- 
2.43.0


From 54d08bc68d295880056c0b55c3e172049e4a44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 27/30] fix: reversed 3D scalar signed distance ignores the
 scale of the relative transform

---
 src/col3d/default_impls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 761cbf8..47f6ec5 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -64,7 +64,18 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, &rel.unapply_origin())
+        uniform_scale(rel) * t.sdf_rel(&Point, &rel.unapply_origin())
+    }
+}
+
+/// How much longer a vector gets by a (uniformly scaling) transform.
+fn uniform_scale(rel: &impl Transformation3d) -> f32 {
+    let origin = rel.apply_origin();
+    let local = rel.unapply_origin().length();
+    if local > 1.0 {
+        origin.length() / local
+    } else {
+        (rel.apply(Vec3::X) - origin).length()
     }
 }
 
-- 
2.43.0


From 82ebbccf1cc8988f6ff67d10e307dbb926136ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:36 +0000
Subject: [PATCH 28/30] fix: 3D ball vectors are precise for almost coincident
 centers

---
 src/col3d/shape/ball3d.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 40d0db5..8b535e7 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -2,6 +2,9 @@ use super::*;
 
 use core::ops::Mul;
 
+/// The length of shorter vectors is imprecise, as its square is not a normal number.
+const COINCIDENT: f32 = 1.1e-19;
+
 // impl SymmetricBoundingBox3d for Ball {
 //     fn symmetric_bounding_box(&self) -> Box3d {
 //         Box3d::with_halfdims(self.radius, self.radius)
@@ -41,7 +44,7 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center == 0.0 {
+            if distance_to_center < COINCIDENT {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
@@ -67,7 +70,7 @@ impl SdfvRel3d<Point> for Ball {
     fn sdfv_rel(&self, _t: &Point, rel: &impl Transformation3d) -> Vec3 {
         let delta = rel.apply_origin();
         let length = delta.length();
-        if length > 0.0 {
+        if length >= COINCIDENT {
             let new_length = length - self.radius;
             delta.mul(new_length / length)
         } else {
-- 
2.43.0


From 02379e35f5a0891944a7a1016496df844ecd6bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:28 +0000
Subject: [PATCH 29/30] fix: ball extreme points along very short and very long
 directions

---
 src/col2d/shape/ball2d/mod.rs | 2 ++
 src/col3d/shape/ball3d.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/col2d/shape/ball2d/mod.rs b/src/col2d/shape/ball2d/mod.rs
index d5c53fb..f69f6c9 100644
--- a/src/col2d/shape/ball2d/mod.rs
+++ b/src/col2d/shape/ball2d/mod.rs
@@ -14,6 +14,8 @@ impl SymmetricBoundingBox2d for Ball {
 
 impl ExtremePoint2d for Ball {
     fn extreme_point(&self, direction: Vec2) -> Vec2 {
+        // The length of very short and very long directions is not representable.
+        let direction = direction / direction.abs().max_element();
         self.radius * direction.normalize_or_zero()
     }
 }
diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 8b535e7..1bdeeaa 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -13,6 +13,8 @@ const COINCIDENT: f32 = 1.1e-19;
 
 impl ExtremePoint3d for Ball {
     fn extreme_point(&self, direction: Vec3) -> Vec3 {
+        // The length of very short and very long directions is not representable.
+        let direction = direction / direction.abs().max_element();
         self.radius * direction.normalize_or_zero()
     }
 }
-- 
2.43.0


From e154aa0d71bd802aeb214326ea16323a6efbd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:46 +0000
Subject: [PATCH 30/30] fix: queries stuck when the farthest point is already
 part of the simplex

---
 src/col2d/shape/local_minkowski_diff/v.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 6822d28..6b0fe1c 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -90,6 +90,11 @@ where
                     return (false, closest);
                 }
             }
+            if simplex.0.points.contains(&a) {
+                // The origin lies (almost) on the simplex and nothing is on this side of it.
+                direction = -direction;
+                continue;
+            }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
@@ -148,6 +153,12 @@ where
                 return (false, Vec2::NAN);
             }
 
+            if simplex.0.points.contains(&a) {
+                // The origin lies (almost) on the simplex and nothing is on this side of it.
+                direction = -direction;
+                continue;
+            }
+
             let (collides, new_direction) = simplex.add_point(a);
             trace!("new direction: {}", new_direction);
             let new_direction_too_small = direction_is_too_small(new_direction);
@@ -229,6 +240,11 @@ where
                 }
                 trace!("fitness: {fitness} *is* sufficiently better than last_fitness: {last_fitness} (continue)");
             }
+            if simplex.0.points.contains(&a) {
+                // The origin lies (almost) on the simplex and nothing is on this side of it.
+                direction = -direction;
+                continue;
+            }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
-- 
2.43.0

