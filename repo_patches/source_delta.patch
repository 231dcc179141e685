From 795825931e8e3e507d99363dae1928bf4950a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 01/25] fix: Matrix::diagonal returns a vector of the matrix's
 own dimension

It returned a Vector4 for every N, so the result of a 2x2 or 3x3 matrix had
extra zero components (and N > 4 panicked), contrary to its documentation.
---
 crates/cglinalg_core/src/matrix.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..be5c255 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -22,7 +22,6 @@ use crate::vector::{
     Vector,
     Vector2,
     Vector3,
-    Vector4,
 };
 use crate::{
     impl_coords,
@@ -1364,7 +1363,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From b66d26450fd6e10b340ca810db98f2c261f528ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 02/25] fix: Matrix2x2::rotation_between_axis turns in the
 right direction

The sine of the angle was computed as a non-negative square root, so a second
vector lying clockwise of the first was rotated to in the wrong direction.
Use the perp product, as Rotation2::rotation_between_axis does.
---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index be5c255..c0d1194 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3233,7 +3233,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1.as_ref()[0] * v2.as_ref()[1] - v1.as_ref()[1] * v2.as_ref()[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From 8275ecff57f90614d78e297de6d25ae9ca5e77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 03/25] fix: Isometry3::look_*_inv map the origin back to the
 eye

The translation of the inverse view was the forward formula applied to the
inverse rotation, so look_to_lh_inv was not the inverse of look_to_lh unless
the eye was at the origin.
---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From dd5ef4fa838cea1e23a2b737b43d86e1aa6bbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 04/25] fix: Perspective3::project_point uses the vertical
 off-centre term

The y coordinate used c3r1 (always zero) instead of c2r1, so points were
projected wrongly for frusta with bottom != top.
---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 66d2b3ba4a05769c24cb65a9a649a95abdda5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 05/25] fix: Complex::powi for negative exponents

The exponent was never negated, so the squaring loop stopped immediately and
z^-3 returned z^-1.
---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From e3ac55f83fd925e80b18c8a4b5925ed0b52b8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 06/25] fix: Quaternion::polar_decomposition keeps the sign of
 the scalar part

Taking the absolute value of the scalar part made q and its conjugate negative
indistinguishable: the polar form did not describe the quaternion it came from.
---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..dc17b99 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3056,7 +3056,7 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
-- 
2.43.0


From 715f5fb132f09f9fa9464180dc4250df48befc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:24 +0000
Subject: [PATCH 07/25] fix: Perspective3::vfov for fields of view of 90
 degrees and more

atan loses the quadrant: beyond 90 degrees the result was negative (off by
half a turn). The numerator is positive for every frustum, so atan2 returns
the angle in (0, pi).
---
 crates/cglinalg_transform/src/projection.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..659f7e2 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,10 +826,8 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
 
-        Radians(vfov)
+        Radians(numerator.atan2(denominator))
     }
 
     /// Get the position of the **near plane** of the viewing
-- 
2.43.0


From 4b46f95ec2c7e5030e956bf1a9975247d92148f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:23 +0000
Subject: [PATCH 08/25] fix: Euler angle extraction at gimbal lock

---
 crates/cglinalg_core/src/euler.rs         | 23 ++++++++++-------------
 crates/cglinalg_transform/src/rotation.rs | 23 ++++++++++-------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..d9f61ed 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,19 +492,16 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
-            let _roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // Solving for the roll angle after undoing the pitch rotation stays accurate
+        // near gimbal lock, where the pitch and roll angles are not unique.
+        let cos_yaw = (matrix[0][0] * matrix[0][0] + matrix[1][0] * matrix[1][0]).sqrt();
+        let yaw = Radians::atan2(matrix[2][0], cos_yaw);
+        let pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
+        let (sin_pitch, cos_pitch) = pitch.sin_cos();
+        let roll = Radians::atan2(
+            matrix[1][2] * cos_pitch + matrix[0][2] * sin_pitch,
+            matrix[1][1] * cos_pitch + matrix[0][1] * sin_pitch,
+        );
 
         Euler::new(roll, yaw, pitch)
     }
diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..ed58858 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1835,19 +1835,16 @@ where
     /// ```
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(self.matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(self.matrix[1][2], self.matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
-            let _roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // Solving for the roll angle after undoing the pitch rotation stays accurate
+        // near gimbal lock, where the pitch and roll angles are not unique.
+        let cos_yaw = (self.matrix[0][0] * self.matrix[0][0] + self.matrix[1][0] * self.matrix[1][0]).sqrt();
+        let yaw = Radians::atan2(self.matrix[2][0], cos_yaw);
+        let pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
+        let (sin_pitch, cos_pitch) = pitch.sin_cos();
+        let roll = Radians::atan2(
+            self.matrix[1][2] * cos_pitch + self.matrix[0][2] * sin_pitch,
+            self.matrix[1][1] * cos_pitch + self.matrix[0][1] * sin_pitch,
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From 8131862c786e6895f17a3eddcb0456695bac7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:51 +0000
Subject: [PATCH 09/25] fix: Rotation3::angle of half turns and of the identity
 is never NaN

---
 crates/cglinalg_transform/src/rotation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index ed58858..79d16c9 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -979,7 +979,11 @@ where
         let two = cglinalg_numeric::cast(2);
         let trace_self = self.matrix.c0r0 + self.matrix.c1r1 + self.matrix.c2r2;
 
-        Radians::acos((trace_self - S::one()) / two)
+        // The cosine may fall outside the interval [-1, 1] because of floating
+        // point inaccuracies.
+        let cos_angle = ((trace_self - S::one()) / two).clamp(-S::one(), S::one());
+
+        Radians::acos(cos_angle)
     }
 
     /// Compute the axis of the rotation if it exists.
-- 
2.43.0


From 7bd8e2614ed1dab53ecb421d6fbc162dfc3cee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:35 +0000
Subject: [PATCH 10/25] fix: Matrix3x3::rotation_between nearly parallel
 vectors is never NaN

---
 crates/cglinalg_core/src/matrix.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index c0d1194..2c40a58 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -5255,7 +5255,11 @@ where
             let cross = unit_v1.cross(&unit_v2);
 
             if let Some(axis) = Unit::try_from_value(cross, threshold) {
-                return Some(Self::from_axis_angle(&axis, Radians::acos(unit_v1.dot(&unit_v2))));
+                // The cosine may fall outside the interval [-1, 1] because of floating
+                // point inaccuracies.
+                let cos_angle = unit_v1.dot(&unit_v2).clamp(-S::one(), S::one());
+
+                return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
             }
 
             if unit_v1.dot(&unit_v2) < S::zero() {
@@ -5303,7 +5307,9 @@ where
         let cos_angle = unit_v1.as_ref().dot(unit_v2.as_ref());
 
         if let Some(axis) = Unit::try_from_value(cross, threshold) {
-            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
+            // The cosine may fall outside the interval [-1, 1] because of floating
+            // point inaccuracies.
+            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle.clamp(-S::one(), S::one()))));
         }
 
         if cos_angle < S::zero() {
-- 
2.43.0


From 872a46df5b39d3b92740a9245800827811516f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:19 +0000
Subject: [PATCH 11/25] fix: Angle::normalize_signed of half a turn lies in
 [-half turn, half turn)

---
 crates/cglinalg_trigonometry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 3f0eab4..09f0fe8 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -440,7 +440,7 @@ where
     #[inline]
     fn normalize_signed(self) -> Self {
         let remainder = self.normalize();
-        if remainder > Self::full_turn_div_2() {
+        if remainder >= Self::full_turn_div_2() {
             remainder - Self::full_turn()
         } else {
             remainder
-- 
2.43.0


From 6337a7818fb05c68e62c95b2d878c6747821734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:19 +0000
Subject: [PATCH 12/25] fix: Angle::normalize of a tiny negative angle lies
 below a full turn

---
 crates/cglinalg_trigonometry/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_trigonometry/src/lib.rs b/crates/cglinalg_trigonometry/src/lib.rs
index 09f0fe8..c2bfca4 100644
--- a/crates/cglinalg_trigonometry/src/lib.rs
+++ b/crates/cglinalg_trigonometry/src/lib.rs
@@ -413,7 +413,13 @@ where
     fn normalize(self) -> Self {
         let remainder = self % Self::full_turn();
         if remainder < Self::zero() {
-            remainder + Self::full_turn()
+            // A remainder that is tiny compared to a full turn rounds up to a full turn.
+            let shifted = remainder + Self::full_turn();
+            if shifted < Self::full_turn() {
+                shifted
+            } else {
+                Self::zero()
+            }
         } else {
             remainder
         }
-- 
2.43.0


From fde7557087e3bf9c2598a0e894478a9e86983bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 13/25] fix: Isometry::abs_diff_all_eq compares the translation
 too

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From b4a30d57d7239aa78e7d8107884b7cc5bba4faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:07 +0000
Subject: [PATCH 14/25] fix: Quaternion::acos returns the principal value for
 negative scalar parts

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index dc17b99..f6bcd48 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3189,7 +3189,7 @@ where
     pub fn acos(&self) -> Self {
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt()).ln();
+        let q = (self + (self + identity).sqrt() * (self - identity).sqrt()).ln();
 
         -(signum_vec_self * q)
     }
-- 
2.43.0


From 0bd78533fc06dfc6425b5290d3edeb220a4334d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:41 +0000
Subject: [PATCH 15/25] fix: polar decomposition of negative real quaternions
 lost their sign

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f6bcd48..b441f3c 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3062,7 +3062,7 @@ where
 
                 (norm_q, angle_over_two, Some(axis))
             } else {
-                (norm_q, Radians::zero(), None)
+                (norm_q, Radians::atan2(S::zero(), unit_q.scalar()), None)
             }
         } else {
             (S::zero(), Radians::zero(), None)
-- 
2.43.0


From 638c26ab95022db968d979f42738f1594a2f968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:58 +0000
Subject: [PATCH 16/25] fix: Matrix::map, row and from_rows no longer conjure
 and drop zeroed elements

---
 crates/cglinalg_core/src/matrix.rs | 33 +++++-------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 2c40a58..89ebe5b 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -428,19 +428,12 @@ where
     /// assert_eq!(matrix[1][0], r0[1]); assert_eq!(matrix[1][1], r1[1]); assert_eq!(matrix[1][2], r2[1]);
     /// assert_eq!(matrix[2][0], r0[2]); assert_eq!(matrix[2][1], r1[2]); assert_eq!(matrix[2][2], r2[2]);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn from_rows(rows: &[Vector<S, C>; R]) -> Self {
-        // SAFETY: Every location gets written into with a valid value of type `S`.
         // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[S; R]; C] = unsafe { core::mem::zeroed() };
-        for r in 0..R {
-            for c in 0..C {
-                data[c][r] = rows[r][c];
-            }
+        Self {
+            data: core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c])),
         }
-
-        Self { data }
     }
 
     /// Map an operation on the elements of a matrix, returning a matrix whose
@@ -467,22 +460,14 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn map<T, F>(&self, mut op: F) -> Matrix<T, R, C>
     where
         F: FnMut(S) -> T,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = op(self.data[c][r]);
-            }
+        Matrix {
+            data: self.data.map(|column| column.map(&mut op)),
         }
-
-        Matrix { data }
     }
 
     /// Get the row of the matrix by value.
@@ -508,17 +493,9 @@ where
     /// assert_eq!(matrix.row(1), expected_1);
     /// assert_eq!(matrix.row(2), expected_2);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn row(&self, r: usize) -> Vector<S, C> {
-        // SAFETY: Every location gets written into with a value value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [S; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            data[c] = self.data[c][r];
-        }
-
-        Vector::from(data)
+        Vector::from(core::array::from_fn(|c| self.data[c][r]))
     }
 
     /// Get the column of the matrix by value.
-- 
2.43.0


From d40850ea467b04d0a48db87c67229c21c9a375b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 17/25] fix: cancellation in Complex::asinh, asin and acos of
 large numbers

asinh(-1e9) was negative infinity and acos(1e9) had real part pi/2;
in single precision asinh(-100) was off in its fourth digit.
---
 crates/cglinalg_core/src/complex.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index cefc515..e28f2a6 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1506,7 +1506,16 @@ where
             return Self::new(S::frac_pi_2(), -self.im);
         }
 
-        let z = Self::ln((Self::unit_im() * Self::sqrt(Self::one() - self * self)) + self);
+        // The product of the sum and the difference is one, so that one of them
+        // loses its precision to cancellation when the other one is large.
+        let root = Self::unit_im() * Self::sqrt(Self::one() - self * self);
+        let sum = self + root;
+        let difference = self - root;
+        let z = if sum.norm_squared() < difference.norm_squared() {
+            -Self::ln(difference)
+        } else {
+            Self::ln(sum)
+        };
         (-Self::unit_im()) * z
     }
 
@@ -1789,6 +1798,12 @@ where
             return Self::new(S::copysign(self.im, self.re), S::copysign(S::frac_pi_2(), self.im));
         }
 
+        if self.re < S::zero() {
+            // The terms of the logarithm cancel when the real part is negative.
+            // The inverse hyperbolic sine is an odd function.
+            return -Self::asinh(-self);
+        }
+
         Self::ln(self + Self::sqrt(Self::one() + self * self))
     }
 
-- 
2.43.0


From 153b230d6a217bf18982e2c58a256b3755816702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 18/25] fix: Complex::tanh and tan overflowed to NaN at
 moderate arguments

The quotient inf / inf was NaN for |re| > 355 (|re| > 44 in single precision).
---
 crates/cglinalg_core/src/complex.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index e28f2a6..482c07e 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1840,7 +1840,12 @@ where
         let two_times_re = self.re + self.re;
         let two_times_im = self.im + self.im;
         let denominator = S::cosh(two_times_re) + S::cos(two_times_im);
-        let tanh_re = S::sinh(two_times_re) / denominator;
+        // The hyperbolic functions overflow long after the quotient has reached its limit.
+        let tanh_re = if denominator.is_infinite() {
+            S::copysign(S::one(), self.re)
+        } else {
+            S::sinh(two_times_re) / denominator
+        };
         let tanh_im = S::sin(two_times_im) / denominator;
 
         Self::new(tanh_re, tanh_im)
-- 
2.43.0


From f01ed1e3519257d60f04a4245c755ee33e9223c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 19/25] fix: cancellation in Quaternion::sqrt near the negative
 real axis

sqrt(-1 + 1e-8 i) was NaN, and sqrt(-1 + 0.001 i) squared to -1.05 + 0.001 i
in single precision.
---
 crates/cglinalg_core/src/quaternion.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index b441f3c..6c91e1c 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2123,6 +2123,14 @@ where
             // Otherwise, we can treat the quaternion as normal.
             let one = S::one();
             let one_half = one / (one + one);
+            if self.scalar() < S::zero() {
+                // The sum `|q| + scalar(q)` cancels when the scalar part is negative.
+                let norm_v = S::sqrt(norm_v_squared);
+                let c = S::sqrt(one_half / (norm_self - self.scalar()));
+
+                return Self::from_parts(norm_v * c, self.vector() * ((norm_self - self.scalar()) * c / norm_v));
+            }
+
             let c = S::sqrt(one_half / (norm_self + self.scalar()));
 
             Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
-- 
2.43.0


From ec9c1110a91d24cc305dec63da1a4f750e07965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 20/25] fix: Quaternion::ln dropped small vector parts

The arc cosine of a quotient near one has half the precision: ln(1 + 2e-4 i)
was 0 in single precision.
---
 crates/cglinalg_core/src/quaternion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 6c91e1c..d6d920e 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1892,9 +1892,11 @@ where
             Self::from_parts(norm.ln(), Vector3::zero())
         } else {
             let norm = self.norm();
-            let arccos_s_over_norm_q = S::acos(self.scalar() / norm);
+            let norm_v = norm_v_squared.sqrt();
+            // The arc tangent stays accurate near the real axis.
+            let arg = S::atan2(norm_v, self.scalar());
             let q_scalar = S::ln(norm);
-            let q_vector = self.vector() * (arccos_s_over_norm_q / norm_v_squared.sqrt());
+            let q_vector = self.vector() * (arg / norm_v);
 
             Self::from_parts(q_scalar, q_vector)
         }
-- 
2.43.0


From 4870c1110cc796081aeb626809569b4f062d6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 21/25] fix: cancellation in Quaternion::asinh and asin of
 large quaternions

Both were infinite or NaN beyond a norm of 1e9 (4e3 in single precision).
---
 crates/cglinalg_core/src/quaternion.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index d6d920e..20062ee 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3281,9 +3281,10 @@ where
     pub fn asin(&self) -> Self {
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let identity = Self::identity();
-        let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
+        // The terms of the reciprocal of this argument cancel.
+        let q = ((identity - self.squared()).sqrt() - (signum_vec_self * self)).ln();
 
-        -(signum_vec_self * q)
+        signum_vec_self * q
     }
 
     /// Compute the quaternionic tangent of `self`.
@@ -3534,6 +3535,12 @@ where
     pub fn asinh(&self) -> Self {
         let identity = Self::identity();
 
+        if self.scalar() < S::zero() {
+            // The terms of the logarithm cancel when the scalar part is negative.
+            // The inverse hyperbolic sine is an odd function.
+            return -Self::asinh(&-self);
+        }
+
         (self + (self.squared() + identity).sqrt()).ln()
     }
 
-- 
2.43.0


From 801ebbb1d181a231f69387cd02d88dbefbf5a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:19 +0000
Subject: [PATCH 22/25] fix: Quaternion::tanh and tan overflowed to NaN at
 moderate arguments

The quotient inf / inf was NaN beyond 355 (44 in single precision).
---
 crates/cglinalg_core/src/quaternion.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 20062ee..d356a08 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3347,7 +3347,12 @@ where
         let denom_s = cos_s * cos_s + sinh_norm_v * sinh_norm_v;
         let denom_v = denom_s * norm_v;
         let scalar = cos_s * sin_s / denom_s;
-        let vector = self.vector() * (cosh_norm_v * sinh_norm_v / denom_v);
+        // The hyperbolic functions overflow long after the quotient has reached its limit.
+        let vector = if denom_s.is_infinite() {
+            self.vector() / norm_v
+        } else {
+            self.vector() * (cosh_norm_v * sinh_norm_v / denom_v)
+        };
 
         Self::from_parts(scalar, vector)
     }
@@ -3606,7 +3611,12 @@ where
         let sinh_s = self.scalar().sinh();
         let denom_s = sinh_s * sinh_s + cos_norm_v * cos_norm_v;
         let denom_v = denom_s * norm_v;
-        let scalar = cosh_s * sinh_s / denom_s;
+        // The hyperbolic functions overflow long after the quotient has reached its limit.
+        let scalar = if denom_s.is_infinite() {
+            S::copysign(S::one(), self.scalar())
+        } else {
+            cosh_s * sinh_s / denom_s
+        };
         let vector = self.vector() * (cos_norm_v * sin_norm_v / denom_v);
 
         Self::from_parts(scalar, vector)
-- 
2.43.0


From 4416c9928fc05652eeee7903e5d94e60af013931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:42 +0000
Subject: [PATCH 23/25] fix: rotation_between returned the identity for nearly
 parallel directions

The arc cosine of a number near one has half the precision: directions 2e-4
radians apart in single precision were not rotated into each other.
---
 crates/cglinalg_core/src/matrix.rs     | 16 +++++++---------
 crates/cglinalg_core/src/quaternion.rs | 10 +++-------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 89ebe5b..a9bcfa9 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -5231,12 +5231,11 @@ where
         if let (Some(unit_v1), Some(unit_v2)) = (v1.try_normalize(S::zero()), v2.try_normalize(S::zero())) {
             let cross = unit_v1.cross(&unit_v2);
 
-            if let Some(axis) = Unit::try_from_value(cross, threshold) {
-                // The cosine may fall outside the interval [-1, 1] because of floating
-                // point inaccuracies.
-                let cos_angle = unit_v1.dot(&unit_v2).clamp(-S::one(), S::one());
+            if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+                // The arc tangent stays accurate for small angles.
+                let cos_angle = unit_v1.dot(&unit_v2);
 
-                return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
+                return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, cos_angle)));
             }
 
             if unit_v1.dot(&unit_v2) < S::zero() {
@@ -5283,10 +5282,9 @@ where
         let cross = unit_v1.as_ref().cross(unit_v2.as_ref());
         let cos_angle = unit_v1.as_ref().dot(unit_v2.as_ref());
 
-        if let Some(axis) = Unit::try_from_value(cross, threshold) {
-            // The cosine may fall outside the interval [-1, 1] because of floating
-            // point inaccuracies.
-            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle.clamp(-S::one(), S::one()))));
+        if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+            // The arc tangent stays accurate for small angles.
+            return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, cos_angle)));
         }
 
         if cos_angle < S::zero() {
diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index d356a08..ea0f3a0 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2382,20 +2382,16 @@ where
         let v2 = unit_v2.as_ref();
         let v1_cross_v2 = v1.cross(v2);
 
-        if let Some(axis) = Unit::try_from_value(v1_cross_v2, threshold) {
+        if let Some((axis, sin_theta)) = Unit::try_from_value_with_norm(v1_cross_v2, threshold) {
             let cos_theta = v1.dot(v2);
 
             if cos_theta <= -S::one() {
                 // The cosines may fall outside the interval [-1, 1] because of floating
                 // point inaccuracies.
                 None
-            } else if cos_theta >= S::one() {
-                // The cosines may fall outside the interval [-1, 1] because of floating
-                // point inaccuracies.
-                Some(Self::identity())
             } else {
-                // The cosine falls inside the interval [-1, 1].
-                Some(Self::from_axis_angle(&axis, Radians::acos(cos_theta)))
+                // The arc tangent stays accurate for small angles.
+                Some(Self::from_axis_angle(&axis, Radians::atan2(sin_theta, cos_theta)))
             }
         } else if v1.dot(v2) < S::zero() {
             // There are two ways to rotate around the unit circle between two vectors.
-- 
2.43.0


From 97d9f93db910f953f6fd32b04caf7901827714d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:42 +0000
Subject: [PATCH 24/25] fix: Rotation3::angle read small angles back as zero

The arc cosine of a number near one has half the precision: an angle of 2e-4
radians was read back as 0 in single precision.
---
 crates/cglinalg_transform/src/rotation.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 79d16c9..3e1f7ba 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -979,11 +979,16 @@ where
         let two = cglinalg_numeric::cast(2);
         let trace_self = self.matrix.c0r0 + self.matrix.c1r1 + self.matrix.c2r2;
 
-        // The cosine may fall outside the interval [-1, 1] because of floating
-        // point inaccuracies.
-        let cos_angle = ((trace_self - S::one()) / two).clamp(-S::one(), S::one());
+        // The arc tangent stays accurate for small angles.
+        let axis = Vector3::new(
+            self.matrix.c1r2 - self.matrix.c2r1,
+            self.matrix.c2r0 - self.matrix.c0r2,
+            self.matrix.c0r1 - self.matrix.c1r0,
+        );
+        let sin_angle = axis.norm() / two;
+        let cos_angle = (trace_self - S::one()) / two;
 
-        Radians::acos(cos_angle)
+        Radians::atan2(sin_angle, cos_angle)
     }
 
     /// Compute the axis of the rotation if it exists.
-- 
2.43.0


From c113fe904c70e35723498b64132fbbc74c73e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:51 +0000
Subject: [PATCH 25/25] fix: Quaternion::tan lost its vector part where only
 the scaled denominator overflowed

Completes 801ebbb: the product of the denominator with the norm overflows
slightly before the denominator does.
---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index ea0f3a0..358c16f 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3344,7 +3344,7 @@ where
         let denom_v = denom_s * norm_v;
         let scalar = cos_s * sin_s / denom_s;
         // The hyperbolic functions overflow long after the quotient has reached its limit.
-        let vector = if denom_s.is_infinite() {
+        let vector = if denom_v.is_infinite() {
             self.vector() / norm_v
         } else {
             self.vector() * (cosh_norm_v * sinh_norm_v / denom_v)
-- 
2.43.0

