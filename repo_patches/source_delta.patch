From 650cf5ad4239340a3a0de8206a39053c6765625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 01/12] fix: complex += adds the imaginary parts (used self.re)

---
 src/complex/cartesian_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..de97e2a 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
-- 
2.43.0


From 0a1e616c28c944d51f6365256ec99cd37b1fcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 02/12] fix: complex -= subtracts the imaginary parts (used
 self.re)

---
 src/complex/cartesian_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index de97e2a..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From fa33346dea222f90f4a6180dcb5941443fb094cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 03/12] fix: complex / and /= use the divisor's imaginary part
 (used rhs.re)

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From e1bf72334e76c8354f5b474c0e681ed723d58424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 04/12] fix: div_cartesian uses the denominator's imaginary
 part

---
 src/complex/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From e02c7064924cdb51cd935c307fd93642bcc7ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 05/12] fix: complex /= by a zero scalar saturates instead of
 dividing by zero afterwards

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From ee1cf0d4ffe35d2e03ec71f0092f85f2deb2af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 06/12] fix: niirf square root on types that cannot represent 4
 (scale by 2 twice)

---
 src/trigonometry/sqrt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..08316f3 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,12 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 3c3f7dddb0f697110e660debd33adebafb197eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 07/12] fix: niirf square root underflowed on unsigned types
 when the first estimate is too large

---
 src/trigonometry/sqrt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 08316f3..2e779db 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -140,7 +140,15 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        let y_sqr = y.mixed_powi(2);
+        if x_ < y_sqr
+        {   // The correction is negative, which unsigned types cannot represent.
+            y = y-beta(x_)*(y_sqr-x_);
+        }
+        else
+        {
+            y = beta(x_)*(x_-y_sqr)+y;
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From 965c2fea2b1f6e26fa3ab0c4114aca635704c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 08/12] fix: mixed_powi with a negative exponent on integers
 and fixed point (was cast to a huge usize)

---
 src/fixed_impl.rs | 8 ++++++++
 src/int_impl.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..f64e9da 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,6 +168,10 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::mixed_one()/(*self), exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
@@ -222,6 +226,10 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( Self::mixed_one()/(*self), exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..d7c2aa0 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,6 +49,10 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( 1/(*self), exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
-- 
2.43.0


From 6561229de78b419b190593d230d6bfc7e275e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 09/12] fix: polynomial atan2 divided by zero or overflowed
 where x^2 or y^2 is not representable

---
 src/trigonometry/atan.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 7c12cff..a95aad7 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -15,7 +15,8 @@
 fn atan_poly_1<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
+    let t   = y/x; // |t| < 1. The squares of x and y may not be representable.
+    let phi = t / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*t.mixed_powi(2) );
     return phi;
 }
 
@@ -34,7 +35,8 @@ fn atan_poly_1<T>( y: T, x: T ) -> T
 fn atan_poly_2<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi     = (x*y) / ( y.mixed_powi(2) + T::mixed_from_num( 0.28125 )*x.mixed_powi(2) );
+    let t       = x/y; // |t| <= 1. The squares of x and y may not be representable.
+    let phi     = t / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*t.mixed_powi(2) );
     return phi;
 }
 
-- 
2.43.0


From 5c7212ac8e6c4d3731d683da5a6a7a85030f1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 10/12] =?UTF-8?q?fix:=20wrap=5Fphase=20panicked=20on=20typ?=
 =?UTF-8?q?es=20that=20cannot=20represent=202=CF=80?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/trigonometry.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..b6c0e1c 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,16 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
  
     let mut temp_scalar = phi;
     
     while temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        temp_scalar = temp_scalar + mixed_pi + mixed_pi; // 2π may not be representable.
     }
     while mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
     }
     return temp_scalar;
 }
-- 
2.43.0


From 4a59f74bd64a6f794fdde4448def635bedb69a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:27 +0000
Subject: [PATCH 11/12] fix: Polar * Cartesian required T: ToPolar<T>, which no
 component type implements

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From 8ecc7033da8577f7e966eab48e0963bbb218edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 12/12] fix: pi and tau of 64-bit fixed-point types were cut to
 f64 precision

---
 src/fixed_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index f64e9da..45e57e4 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -102,11 +102,11 @@ macro_rules! impl_mixed_num_for_fixed{
         {
             #[inline(always)]
             fn mixed_pi() -> Self {
-                return Self::from_num(3.1415926535897932384626433832795028841971693993751058209749445923078164062);
+                return Self::from_num(fixed::consts::PI);
             }
             #[inline(always)]
             fn mixed_tau() -> Self {
-                return Self::from_num(6.2831853071795864769252867665590057683943387987502116419498891846156328124);
+                return Self::from_num(fixed::consts::TAU);
             }
         }
 
-- 
2.43.0

