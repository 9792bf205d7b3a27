From 37abf6a1f98ee00b1b14d3f55cf37ad204d32850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 01/17] fix: keep the translation out of the rotation Jacobian
 of a pose transform

---
 cv-core/src/pose.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..4d7214d 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -78,7 +78,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +112,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,21 +145,14 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
-
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
     // dP/dT (Jacobian of output point in respect to translation component)
     let dp_dt = Matrix4::<f64>::identity() * output.w;
 
     // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    //
+    // The translation is added after the rotation, so it does not appear in this derivative.
+    let dp_ds = Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
-- 
2.43.0


From 3281b43ec4b6b9bdb5b2f522f38f49f2a1d1c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 02/17] fix: Skew3::jacobian_self returns -hat(y) as documented

---
 cv-core/src/pose.rs | 5 ++++-
 cv-core/src/so3.rs  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 4d7214d..e526346 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -152,7 +152,10 @@ fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<
     // dP/ds (Jacobian of output point in respect to skew component)
     //
     // The translation is added after the rotation, so it does not appear in this derivative.
-    let dp_ds = Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    // Below, the rows are transposed into the columns of the Jacobian.
+    let dp_ds = Skew3::jacobian_self(rotated.xyz())
+        .transpose()
+        .to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..9ef10b6 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -241,7 +241,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From 8a750fd3767a270b5b998bcd298a22e43e6c2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 03/17] fix: Se3TangentSpace::inverse inverts the isometry it
 represents

---
 cv-core/src/so3.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 9ef10b6..588ef94 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -41,12 +41,14 @@ impl Se3TangentSpace {
         }
     }
 
-    /// Inverts the transformation, which is very cheap.
+    /// Inverts the transformation.
     #[must_use]
     #[inline(always)]
     pub fn inverse(self) -> Self {
+        // The isometry rotates the translation, so the inverse translation is `-R * translation`.
+        let rotation = Rotation3::from_scaled_axis(self.rotation);
         Self {
-            translation: -self.translation,
+            translation: -(rotation * self.translation),
             rotation: -self.rotation,
         }
     }
-- 
2.43.0


From f4d464a852dfb9549af7362f8a421faf21121027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 04/17] fix: center the principal point using the number of
 pixels

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..f1d743c 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -279,7 +279,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 31e3deebe20baf8db8d8e49da5456f0a85a4834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 05/17] fix: normalize the second bearing of an eight-point
 match by its own depth

---
 eight-point/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eight-point/src/lib.rs b/eight-point/src/lib.rs
index fdea941..83591bc 100644
--- a/eight-point/src/lib.rs
+++ b/eight-point/src/lib.rs
@@ -13,7 +13,7 @@ fn encode_epipolar_equation(matches: impl Iterator<Item = FeatureMatch>) -> OMat
     for (i, FeatureMatch(a, b)) in (0..8).zip(matches) {
         let mut row = OVector::<f64, U9>::zeros();
         let ap = a.into_inner() / a.z;
-        let bp = b.into_inner() / a.z;
+        let bp = b.into_inner() / b.z;
         for j in 0..3 {
             let v = ap[j] * bp;
             row.fixed_rows_mut::<3>(3 * j).copy_from(&v);
-- 
2.43.0


From f4d8b78608acaafb8096dac41587c04621913f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 06/17] fix: take the five-point solution from the last four
 rows of the eigenvector

---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From f813ec4cb4754adf770380d5cf62a89d3c563abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 07/17] fix: K1 uncalibrate at the principal point, without
 distortion and out of reach

---
 cv-pinhole/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index f1d743c..8f87727 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -224,12 +224,13 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
     fn uncalibrate(&self, projection: UnitVector3<f64>) -> Option<KeyPoint> {
         projection.z.is_sign_positive().then_some(())?;
         let undistorted = projection.xy() / projection.z;
-        // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
+        // You can set up a quadratic to solve for r with the undistorted keypoint. This is the
+        // result, in a form that is also defined when `k1` or the undistorted keypoint are zero.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        let discriminant = 1.0 - 4.0 * self.k1 * u2;
+        // No keypoint is undistorted to this projection if there is no real solution.
+        (discriminant >= 0.0).then_some(())?;
+        let distorted = undistorted * (2.0 / (1.0 + Float::sqrt(discriminant)));
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From c69445c97d8b36d1e45d419a30df0cf9e2395d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 08/17] fix: two-view triangulation of the three-view gradients
 puts the point in front of the cameras

---
 cv-geom/src/epipolar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-geom/src/epipolar.rs b/cv-geom/src/epipolar.rs
index f3c9dc1..e894a48 100644
--- a/cv-geom/src/epipolar.rs
+++ b/cv-geom/src/epipolar.rs
@@ -39,7 +39,7 @@ fn two_view_same_space_triangulate_sine_l1(
 
     let z = a.cross(&b);
     Some(CameraPoint::from_homogeneous(
-        a.into_inner().push(z.norm_squared() / z.dot(&t.cross(&b))),
+        a.into_inner().push(z.norm_squared() / z.dot(&b.cross(&t))),
     ))
     .filter(|point| {
         // Ensure the point contains no NaN or infinity.
-- 
2.43.0


From 555ae075cae5d54652dfd3f206594250bb8930e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 09/17] fix: check cheirality of triangulated points from each
 camera's own center

---
 cv-geom/src/epipolar.rs      |  5 +++--
 cv-geom/src/triangulation.rs | 29 +++++++++++++++++------------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/cv-geom/src/epipolar.rs b/cv-geom/src/epipolar.rs
index e894a48..6290fef 100644
--- a/cv-geom/src/epipolar.rs
+++ b/cv-geom/src/epipolar.rs
@@ -46,8 +46,9 @@ fn two_view_same_space_triangulate_sine_l1(
         point.homogeneous().iter().all(|n| n.is_finite())
     })
     .filter(|point| {
-        // Ensure the cheirality constraint.
-        point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+        // Ensure the cheirality constraint. The optical center of B is at `-t`.
+        let from_b = point.bearing().into_inner() + t * point.homogeneous().w;
+        point.bearing().dot(&a).is_sign_positive() && from_b.dot(&b).is_sign_positive()
     })
     .and_then(|p| p.point())
 }
diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..4b49866 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -121,9 +121,10 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
+                    pose.transform(*point)
+                        .bearing()
+                        .dot(&bearing)
+                        .is_sign_positive()
                 })
             })
     }
@@ -354,9 +355,10 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 point.bearing().dot(&a).is_sign_positive()
-                    && point
+                    && relative_pose
+                        .transform(*point)
                         .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
+                        .dot(&b)
                         .is_sign_positive()
             })
     }
@@ -433,9 +435,10 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         .filter(|point| {
             // Ensure the cheirality constraint.
             pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
+                pose.transform(*point)
+                    .bearing()
+                    .dot(&bearing)
+                    .is_sign_positive()
             })
         })
     }
@@ -523,8 +526,9 @@ impl TriangulatorRelative for AngularL1Triangulator {
             point.homogeneous().iter().all(|n| n.is_finite())
         })
         .filter(|point| {
-            // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // Ensure the cheirality constraint. The optical center of the camera of `a` is at `translation`.
+            let from_a = point.bearing().into_inner() - translation * point.homogeneous().w;
+            from_a.dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
         })
     }
 }
@@ -599,8 +603,9 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
             point.homogeneous().iter().all(|n| n.is_finite())
         })
         .filter(|point| {
-            // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            // Ensure the cheirality constraint. The optical center of the camera of `a` is at `translation`.
+            let from_a = point.bearing().into_inner() - translation * point.homogeneous().w;
+            from_a.dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
         })
     }
 }
-- 
2.43.0


From 2442d67593dfa94a9f12282ad03c22f661e58ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 10/17] fix: check the point again after sine L1 refinement

---
 cv-geom/src/triangulation.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 4b49866..768bd47 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -272,7 +272,20 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        Some(WorldPoint::from_point(point))
+            .filter(|point| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // Ensure the cheirality constraint still holds after the refinement.
+                pairs.clone().all(|(pose, bearing)| {
+                    pose.transform(*point)
+                        .bearing()
+                        .dot(&bearing)
+                        .is_sign_positive()
+                })
+            })
     }
 }
 
-- 
2.43.0


From 75d7e360970e32e65c44f8f0b250d0aeaef7eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 11/17] fix: logarithm of half-turn rotations

---
 cv-core/src/so3.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 588ef94..eb562cb 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -3,7 +3,9 @@ use core::{
     ops::{Add, AddAssign},
 };
 use derive_more::{AsMut, AsRef, Deref, DerefMut, From, Into};
-use nalgebra::{Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, Vector3, Vector6};
+use nalgebra::{
+    Const, IsometryMatrix3, Matrix3, Matrix4, Rotation3, Unit, UnitQuaternion, Vector3, Vector6,
+};
 use num_traits::Float;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -265,7 +267,8 @@ impl From<Skew3> for Rotation3<f64> {
 /// This is the log map.
 impl From<Rotation3<f64>> for Skew3 {
     fn from(r: Rotation3<f64>) -> Self {
-        let skew3 = r.scaled_axis();
+        // The quaternion keeps the axis of half-turns, which `Rotation3::scaled_axis` loses.
+        let skew3 = UnitQuaternion::from_rotation_matrix(&r).scaled_axis();
         // TODO: File issue on `nalgebra`, as this shouldn't happen and is bug.
         let skew3 = if skew3.iter().any(|n| n.is_nan()) {
             Vector3::zeros()
-- 
2.43.0


From bf495aabaff1bd62fdeec0a68db9112d6c084d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 12/17] fix: residual of a match whose point lies at a camera's
 optical center is 2, not NaN

---
 cv-core/src/pose.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index e526346..fbce1b4 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -287,6 +287,8 @@ impl Model<FeatureMatch> for CameraToCamera {
                 0.5 * (1.0 - a.dot(&point.bearing()) + 1.0
                     - b.dot(&self.transform(point).bearing()))
             })
+            // A point at the optical center of either camera has no bearing.
+            .filter(|residual| !residual.is_nan())
             .unwrap_or(2.0)
     }
 }
-- 
2.43.0


From d74d9822916621a1ce35c7799f86adaf8882fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 13/17] fix: the five-point estimator refuses degenerate
 matches instead of never returning

---
 nister-stewenius/src/lib.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..a5e70cf 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -237,28 +237,20 @@ fn essentials_from_action_ebasis(
 }
 
 /// Takes in two sets of normalized key points.
-/// Returns all essential matrix solutions.
+/// Returns all essential matrix solutions, or `None` if the points are degenerate.
 fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
-) -> impl Iterator<Item = EssentialMatrix> {
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -276,7 +268,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    essentials_from_action_ebasis(at, e_basis)
+    Some(essentials_from_action_ebasis(at, e_basis))
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
@@ -321,6 +313,8 @@ impl Estimator<FeatureMatch> for NisterStewenius {
         }
         assert!(count == 5);
         five_points_relative_pose(&a, &b)
+            .into_iter()
+            .flatten()
             .filter_map(|essential| {
                 essential.possible_unscaled_poses(self.epsilon, self.iterations)
             })
-- 
2.43.0


From 211146247c9299d7a5743fd9420e44eb7db626fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 14/17] fix: lambda twist returned the identity for poses that
 are half-turns

---
 lambda-twist/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambda-twist/src/lib.rs b/lambda-twist/src/lib.rs
index 928d3e8..e0fa66b 100644
--- a/lambda-twist/src/lib.rs
+++ b/lambda-twist/src/lib.rs
@@ -33,7 +33,7 @@ use num_traits::Float;
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, Vector3},
+    nalgebra::{Matrix3, Rotation3, UnitQuaternion, Vector3},
     sample_consensus::Estimator,
     FeatureWorldMatch, Pose, Projective, WorldToCamera,
 };
@@ -303,13 +303,18 @@ impl LambdaTwist {
                 (rot, ry1 - rot * wps[0].coords)
             })
             .map(|(rot, trans)| {
+                // The convergence starts at the rotation of the matrix's quaternion. It cannot start
+                // at the identity, which it would never leave if the rotation is a half-turn.
+                let guess =
+                    UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(rot));
+                let guess = UnitQuaternion::new_normalize(guess.into_inner());
                 WorldToCamera::from_parts(
                     trans,
                     Rotation3::from_matrix_eps(
                         &rot,
                         self.rotation_convergence_epsilon,
                         self.rotation_convergence_iterations,
-                        Rotation3::identity(),
+                        guess.to_rotation_matrix(),
                     ),
                 )
             })
-- 
2.43.0


From edb4a8bc282b27489d1e4e5465fcf3381d1ec697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:08 +0000
Subject: [PATCH 15/17] fix: single-view L1 optimization of only points at
 infinity keeps the pose instead of returning NaN

---
 cv-optimize/src/single_view_optimizer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..1701610 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,12 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // Landmarks at infinity have no gradient. If there are no others, the harmonic means
+        // below would turn the pose into NaN.
+        if rs == 0.0 {
+            break;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From b2efed88fcd8848495ff6dfb858b881bcc9c37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:47 +0000
Subject: [PATCH 16/17] fix: DLT triangulation refuses NaN singular values
 instead of panicking

---
 cv-geom/src/triangulation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 768bd47..831e9f1 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -355,7 +355,13 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .row_mut(3)
             .copy_from(&(b.y * pose.row(2) - b.z * pose.row(1)));
 
-        let svd = design.try_svd(false, true, self.epsilon, self.max_iterations)?;
+        let mut svd = design.try_svd_unordered(false, true, self.epsilon, self.max_iterations)?;
+
+        // NaN singular values have no order and sorting them panics.
+        if svd.singular_values.iter().any(|n| n.is_nan()) {
+            return None;
+        }
+        svd.sort_by_singular_values();
 
         // Extract the null-space vector from V* corresponding to the smallest
         // singular value, which is the homogeneous coordiate of the output.
-- 
2.43.0


From 40a91839cfb030e67edf0c6ae3569cbad7114e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 17/17] fix: the five-point estimator bounds its eigenvalue
 iteration, which does not converge for some matches

---
 nister-stewenius/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index a5e70cf..fbde975 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,7 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
-        DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
+        DimName, Matrix3, OMatrix, OVector, Schur, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
 };
@@ -36,6 +36,8 @@ const BASIS_1: usize = 19;
 const EIGEN_CONVERGENCE: f64 = 1e-12;
 const EIGEN_ITERATIONS: usize = 1000;
 const EIGEN_THRESHOLD: f64 = 1e-12;
+const SCHUR_CONVERGENCE: f64 = f64::EPSILON;
+const SCHUR_ITERATIONS: usize = 1000;
 const SVD_CONVERGENCE: f64 = 1e-12;
 const SVD_ITERATIONS: usize = 1000;
 /// The threshold which the singular value must be below for it
@@ -219,9 +221,11 @@ fn compute_eigenvector(m: &Square10, lambda: f64) -> Option<OVector<f64, U10>> {
 fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
-) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
+    // The iteration is bounded since it does not converge for every matrix.
+    let eigenvalues =
+        Schur::try_new(at, SCHUR_CONVERGENCE, SCHUR_ITERATIONS)?.complex_eigenvalues();
+    let essentials = (0..eigenvalues.len())
         .filter_map(move |i| {
             let e = eigenvalues[i];
             if e.im == 0.0 {
@@ -233,7 +237,8 @@ fn essentials_from_action_ebasis(
             }
         })
         .map(move |vector| Matrix3::from_iterator((eb * vector).iter().copied()))
-        .map(EssentialMatrix)
+        .map(EssentialMatrix);
+    Some(essentials)
 }
 
 /// Takes in two sets of normalized key points.
@@ -268,7 +273,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    Some(essentials_from_action_ebasis(at, e_basis))
+    essentials_from_action_ebasis(at, e_basis)
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
-- 
2.43.0

