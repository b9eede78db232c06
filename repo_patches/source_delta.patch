From e6cc80c374dc302cba4ec7e54725d191f1c13a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 01/24] fix: compute the YZX Euler sequence as roty * rotz *
 rotx

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From faed26ac57f73a6f0e941d104e0ab4ae920ebe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 02/24] fix: V3 * M33 is the row vector product, as in the
 other sizes

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..25c4cd4 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            rhs[(0, 0)] * self[0] + rhs[(1, 0)] * self[1] + rhs[(2, 0)] * self[2],
+            rhs[(0, 1)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(2, 1)] * self[2],
+            rhs[(0, 2)] * self[0] + rhs[(1, 2)] * self[1] + rhs[(2, 2)] * self[2])
     }
 }
 
-- 
2.43.0


From c82393bf9ecc4ba8b1fcf565a74279dde73c65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 03/24] fix: norm_inf is the maximum of the absolute values

---
 src/slices_methods.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..b841f4d 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -65,8 +65,11 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
-    let max_min = find_max_min(slice);
-    max_min.max.0
+    let abs = |x: T| if x < T::zero() { T::zero() - x } else { x };
+    slice.iter().skip(1).fold(abs(slice[0]), |max, &element| {
+        let element = abs(element);
+        if element > max { element } else { max }
+    })
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From 96f4ef8d5285c884b1eedb784e9e9d2884e37591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 04/24] fix: nearly_equal uses an absolute comparison for
 subnormal numbers

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From 07bd533a016ba4c0a38c7a563245d6a72e787948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 05/24] fix: slerp between nearly equal (or nearly opposite)
 quaternions

---
 src/quaternion.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..9c7c57a 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -461,12 +461,9 @@ impl<T: Float> Quaternion<T> {
         let sin_half_theta = T::sqrt(one - cos_half_theta * cos_half_theta);
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
         if sin_half_theta.abs() < T::from(0.001).unwrap() {
-            if !reverse_a {
-                result.q0   = (one - t) * a.q0 + t * b.q0;
-                result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
-            }
+            let t_b = if reverse_a { -t } else { t };
+            result.q0 = (one - t) * a.q0 + t_b * b.q0;
+            result.q  = a.q * (one - t) + b.q * t_b;
             return result
         }
         let aux1 = T::sin((one - t) * half_theta) / sin_half_theta;
-- 
2.43.0


From 65ab26960b3a26cd23c8f9d8dff0afa428a1eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 06/24] fix: matrix_exponential6 of a pure translation

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..16f7bca 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From bf43c807dc893672aa79a246c4f45c5e09262652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 07/24] fix: matrix_log of a half turn around the x axis

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 16f7bca..9d5d867 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -459,7 +459,7 @@ pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T>
                 * (one / T::sqrt(two * (one + r[(1, 1)])));
             skew_from_vec(&(omega * T::PI()))
         } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
+            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
                 * (one / T::sqrt(two * (one + r[(0, 0)])));
             skew_from_vec(&(omega * T::PI()))
         }
-- 
2.43.0


From 044fa8eb81156e33bd336f620108a8aa29da0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 08/24] fix: DualQuaternion division is the product with the
 inverse

---
 src/dual_quaternion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..8676b94 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -138,14 +138,12 @@ impl<T: Num + Copy> Mul<T> for DualQuaternion<T> {
 }
 
 // dq / dq
+#[allow(clippy::suspicious_arithmetic_impl)]
 impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        self * rhs.inverse()
     }
 }
 
-- 
2.43.0


From 8b062ea8d7eefb8a1d351dfba759f2b5e4c6cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 09/24] fix: DualQuaternion pow of (nearly) pure translations

The translation was doubled when there is no rotation, and the acos of a
real part that rounding took out of [-1, 1] gave NaN.
---
 src/dual_quaternion.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 8676b94..62d6d82 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -239,10 +239,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
-        let (s, c) = (theta / two).sin_cos();
-        if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+        let theta = self.real().get_angle();
+        let (s, c) = (self.real().abs_imag(), self.real().real());
+        if nearly_zero(s) {
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From 65c0b5545925bbb5e85aaed1fd43a988109769ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 10/24] fix: screw_lerp takes the shortest path without
 changing the start pose

q and -q are the same rotation only if the dual part changes the sign too,
and how close two rotations are is told by their dot product.
---
 src/dual_quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 62d6d82..4ac72a2 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -273,8 +273,8 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = *begin * -one;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From 182a24c92c6eeeebe03e4df01191369b6023a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 11/24] fix: logarithm of a DualQuaternion

The dual part was half of the translation, which is only right when the
screw axis goes through the origin parallel to the translation, and pure
translations panicked.
---
 src/dual_quaternion.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 4ac72a2..6bd4b77 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -285,9 +285,13 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let one = T::one();
             let two = one + one;
             let half = one / two;
-            let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+            let (l, m, theta, d) = self.get_screw_parameters();
+            if nearly_zero(theta) {
+                let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+                return Some(DualQuaternion::new(Quaternion::zero(), q_dual));
+            }
+            let q_real = Quaternion::new_imag(&(l * (half * theta)));
+            let q_dual = Quaternion::new_imag(&((m * theta + l * d) * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
             None
-- 
2.43.0


From a9fd80faef2a57be9b6626f1fb193c328be3ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 12/24] fix: DualQuaternion normalize gives a unit
 DualQuaternion

---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 6bd4b77..6de25e2 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -363,7 +363,9 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                // the real and the dual parts of a unit DualQuaternion are orthogonal
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From 7afe583cff7471f37abf0394eac0bcb0c184891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 13/24] fix: new_from_screw_parameters of a pure translation

---
 src/dual_quaternion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 6de25e2..55d4cf5 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -222,7 +222,9 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let two = one + one;
         let (sin, cos) = (theta / two).sin_cos();
         let q_real = Quaternion::new(cos, *l * sin);
-        let q_dual = Quaternion::new(sin * (-d / two), *m * sin + *l * (d / two) * cos);
+        // there is no moment when there is no rotation (and it is not finite)
+        let moment = if nearly_zero(sin) { V3::zeros() } else { *m * sin };
+        let q_dual = Quaternion::new(sin * (-d / two), moment + *l * (d / two) * cos);
         Self::new(q_real, q_dual)
     }
 
-- 
2.43.0


From e431d745ffa03a7dc52cda76b9188647c1293b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 14/24] fix: compare (Dual)Quaternions only by value

The internal `normalized` flag made values that are equal, like one * one
and one, different.
---
 src/dual_quaternion.rs | 9 ++++++++-
 src/quaternion.rs      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 55d4cf5..5952cfe 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// the `normalized` flag is not part of the value
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q_real == other.q_real && self.q_dual == other.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
diff --git a/src/quaternion.rs b/src/quaternion.rs
index 9c7c57a..d87a555 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// the `normalized` flag is not part of the value
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q0 == other.q0 && self.q == other.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0


From 2df9bc5814ecd8cf5c36064eb37238b4f4eae987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 15/24] fix: the Display of the matrices writes only in the
 formatter

It wrote a newline in stdout, which besides made imposible to compile the
crate with the `no-std` feature.
---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From 17c68c31e939fb02f3532c79eac9017ece2daf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 16/24] fix: normalize_q compares the norm with epsilon, not
 its square

Quaternions with a norm under sqrt(epsilon) lost the direction, and with it
the sin and cos of quaternions with a small imaginary part.
---
 src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index d87a555..eada6fe 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -368,9 +368,9 @@ impl<T: Float> Quaternion<T> {
     // nearly_equal here
     /// normalize the Quaternion
     pub fn normalize_q(&self) -> Self {
-        let a = self.dot(*self);
+        let a = self.norm2();
         if a > T::epsilon() {
-            let mut result = *self / a.sqrt();
+            let mut result = *self / a;
             result.normalized = true;
             result
         } else {
-- 
2.43.0


From b597645388da2958cf9c91c8914e076e85ce2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 17/24] fix: rotation_to_euler near of the singularity

yay and roll were obtained independently from elements that vanish there, so
the angles did not represent the rotation.
---
 src/transformations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 9d5d867..bcd9481 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -180,7 +180,10 @@ pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
     // normal case
     } else {
         let yay = T::atan2(r[(1, 0)], r[(0, 0)]);
-        let roll = T::atan2(r[(2, 1)], r[(2, 2)]);
+        // NOTE: r[(2, 1)] and r[(2, 2)] vanish near of the singularity, so the roll comes from
+        // the second row of rotz(-yay) * r
+        let (s, c) = yay.sin_cos();
+        let roll = T::atan2(s * r[(0, 2)] - c * r[(1, 2)], c * r[(1, 1)] - s * r[(0, 1)]);
         (yay, pitch, roll)
     }
 }
-- 
2.43.0


From 6f7e37a702f3b98b38faf4dd4fc3317707693488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 18/24] fix: is_rotation and is_rotation_h check that the
 matrix is orthonormal

They looked only at the determinant, so diag(2, 1/2, 1) was a rotation and
most of the products of rotations were not.
---
 src/utils.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..a9c5514 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,7 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::get_parts_raw;
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -75,14 +76,20 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
-    let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    is_orthonormal(r, T::from(100).unwrap() * T::epsilon())
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
-    let r2 = r * r;
-    let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    let (zero, one) = (T::zero(), T::one());
+    let eps = T::max(T::from(1e-6).unwrap(), T::from(100).unwrap() * T::epsilon());
+    let last_row = [r[(3, 0)], r[(3, 1)], r[(3, 2)], r[(3, 3)]];
+    is_orthonormal(get_parts_raw(&r).0, eps) && compare_vecs(&last_row, &[zero, zero, zero, one], eps)
+}
+
+// r * r^T = I, and the orientation is preserved
+fn is_orthonormal<T: Float + core::iter::Sum>(r: M33<T>, eps: T) -> bool {
+    let product = r * r.transpose();
+    r.det() > T::zero() && compare_vecs(&product.as_vec(), &M33::identity().as_vec(), eps)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From 02a8226cbdfd28d6cfdc30cd254e64c14b218293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:05 +0000
Subject: [PATCH 19/24] fix: matrix_log and matrix_log6 near of half turns and
 of the identity

The acos of the trace loses half of the digits there (and is NaN when the
rounding takes it out of [-1, 1]), so exp(log(R)) was not R.
---
 src/transformations.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index bcd9481..9d0e6ae 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -449,27 +449,27 @@ pub fn matrix_exponential<T: Float>(so3: &M33<T>) -> M33<T> {
 pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
     let one = T::one();
     let two = one + one;
-    let angle = (r.trace() - one) / two;
-    if angle >= one {
-        M33::zeros()
-    } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
-            let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
-                * (one / T::sqrt(two * (one + r[(2, 2)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
-            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
-                * (one / T::sqrt(two * (one + r[(1, 1)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else {
-            let omega = V3::new_from(one + r[(0, 0)], r[(1, 0)], r[(2, 0)])
-                * (one / T::sqrt(two * (one + r[(0, 0)])));
-            skew_from_vec(&(omega * T::PI()))
+    let cos = (r.trace() - one) / two;
+    // sin(theta) * axis
+    let v = skew_to_vec(&(*r - r.transpose())) / two;
+    let sin = v.norm2();
+    let theta = T::atan2(sin, cos);
+    if cos < T::zero() {
+        // near of a half turn v vanishes, but not the symmetric part of the rotation:
+        // (1 - cos(theta)) * axis * axis^T
+        let cols = ((*r + r.transpose()) / two - M33::identity() * cos).get_cols();
+        let mut axis = cols[0];
+        for col in cols.iter().skip(1) {
+            if col.norm2() > axis.norm2() {
+                axis = *col;
+            }
         }
+        let sign = if axis * v < T::zero() { -one } else { one };
+        skew_from_vec(&(axis * (sign * theta / axis.norm2())))
+    } else if nearly_zero(sin) {
+        M33::zeros()
     } else {
-        let theta = T::acos(angle);
-        // TODO(elsuizo:2021-05-10): esto esta bien???
-        (*r - r.transpose()) * (theta / two / T::sin(theta))
+        skew_from_vec(&(v * (theta / sin)))
     }
 }
 
@@ -621,7 +621,7 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        let theta = skew_to_vec(&omega).norm2();
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 65a2be103d1924bb8c69ddbed9aec32e85c92f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:37 +0000
Subject: [PATCH 20/24] fix: screw parameters when the real part is -1

It is a pure translation too, and the axis was not a unit vector.
---
 src/dual_quaternion.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 5952cfe..d5691ad 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -190,9 +190,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let half = one / two;
         let theta = self.real().get_angle();
         let t = self.get_translation();
+        let sin = T::sin(theta / two);
 
-        if !nearly_zero(theta) {
-            let l = self.real().imag() / T::sin(theta / two);
+        if !nearly_zero(sin) {
+            let l = self.real().imag() / sin;
             let d = t * l;
             let cot = one / T::tan(theta / two);
             let m = (t.cross(l) + (t - l * d) * cot) * half;
@@ -295,12 +296,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let two = one + one;
             let half = one / two;
             let (l, m, theta, d) = self.get_screw_parameters();
-            if nearly_zero(theta) {
-                let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
-                return Some(DualQuaternion::new(Quaternion::zero(), q_dual));
-            }
+            // there is no moment when there is no rotation (and it is not finite)
+            let moment = if nearly_zero(T::sin(half * theta)) { V3::zeros() } else { m * theta };
             let q_real = Quaternion::new_imag(&(l * (half * theta)));
-            let q_dual = Quaternion::new_imag(&((m * theta + l * d) * half));
+            let q_dual = Quaternion::new_imag(&((moment + l * d) * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
             None
-- 
2.43.0


From 4c10c0b0f8201bcb76d972779f7ce58d90dbaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:30 +0000
Subject: [PATCH 21/24] fix: real_eigenvals of matrices with (nearly) repeated
 eigenvalues

The rounding of tau^2 - 4 * det made it negative, so None was returned for
symmetric matrices.
---
 src/matrix2x2.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index cae8be4..188859e 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -345,10 +345,10 @@ impl<T: Float + core::iter::Sum> M22<T> {
     /// calculate the real eigen values for the matrix
     pub fn real_eigenvals(&self) -> Option<V2<T>> {
         let tau = self.trace();
-        let delta = self.det();
-        let tau_2 = tau * tau;
         let four = T::from(4)?;
-        let discr = tau_2 - four * delta;
+        // tau^2 - 4 * det without the cancellation (never negative if the matrix is symmetric)
+        let diff = self[(0, 0)] - self[(1, 1)];
+        let discr = diff * diff + four * self[(0, 1)] * self[(1, 0)];
         if discr < T::zero() {
             None
         } else {
-- 
2.43.0


From 606cd75d6b3406f186422a8d46b57393e47154f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 22/24] fix: slerp between quaternions closer than the
 resolution of the cosine

---
 src/quaternion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index eada6fe..ba23583 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -454,16 +454,15 @@ impl<T: Float> Quaternion<T> {
         let mut result = Quaternion::zero();
         // calculate the angle betwen two unit Quaternions via dot product
         let mut cos_half_theta = a.dot(b);
-        // if a = b or a = -b then theta(the angle between) = 0 then we can return a
-        if cos_half_theta.abs() >= one {
-            return a
-        }
         let mut reverse_a = false;
         // allways follow the shortest path
         if cos_half_theta < T::zero() {
             reverse_a = true;
             cos_half_theta = -cos_half_theta;
         }
+        // NOTE: the rounding could give a value greater than one when a = b or a = -b, but a value
+        // of one does not imply that they are equal
+        cos_half_theta = cos_half_theta.min(one);
         let half_theta     = T::acos(cos_half_theta);
         let sin_half_theta = T::sqrt(one - cos_half_theta * cos_half_theta);
         // TODO(elsuizo:2021-04-24): maybe here the comparison could be with epsilon
-- 
2.43.0


From 5ce3145ed0c3d0db5043e0a0824c13d8a9685c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 23/24] fix: matrix_exponential6 of small rotations

1 - cos(theta) cancels when theta is small, and the translation was wrong by
epsilon / theta (1e-4 of it in f32).
---
 src/transformations.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 9d0e6ae..00c2f6b 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -589,9 +589,12 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
         let theta = axis_angle(&omega_theta).1;
         let omega = skew_omega / theta;
         let mat_exp = matrix_exponential(&skew_omega);
-        let (s, c) = theta.sin_cos();
+        let s = theta.sin();
+        // NOTE: 1 - cos(theta), without the cancellation when theta is small
+        let s_half = (theta / (one + one)).sin();
+        let versin = (one + one) * s_half * s_half;
         let v_t =
-            (M33::identity() * theta + omega * (one - c) + omega * omega * (theta - s)) * v / theta;
+            (M33::identity() * theta + omega * versin + omega * omega * (theta - s)) * v / theta;
 
         m44_new!(mat_exp[(0, 0)], mat_exp[(0, 1)], mat_exp[(0, 2)], v_t[0];
                  mat_exp[(1, 0)], mat_exp[(1, 1)], mat_exp[(1, 2)], v_t[1];
-- 
2.43.0


From 8548b4be33680aa1d45eeb972671b94f62eb66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:29:21 +0000
Subject: [PATCH 24/24] fix: Quaternion::sin panicked when the norm of the
 imaginary part overflows

---
 src/quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index ba23583..e9331aa 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -519,7 +519,8 @@ impl<T: Float + Signed> Quaternion<T> {
         let one = T::one();
         let two = one + one;
         let l = self.argq();
-        ((*self * l).exp() - (*self * -l).exp())/ (l * two)
+        // l is a unit imaginary: dividing by it is multiplying by its conjugate
+        ((*self * l).exp() - (*self * -l).exp()) * l.conj() / two
     }
 
     /// cos function apply to the current Quaternion
-- 
2.43.0

