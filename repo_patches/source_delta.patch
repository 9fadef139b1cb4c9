From 231ef353063be20f4e6fa1eb0e5a947ca24eed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 01/21] fix: divide by the imaginary part of a cartesian
 denominator

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..089f718 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From 73197a0385959c9456e3048689614de430d2e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 02/21] fix: compound add and subtract use the imaginary part
 of self

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 089f718..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From 1e92cfba6906ecb2b88f312079561f90e5764982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 03/21] fix: compound division by a zero scalar saturates like
 the binary operator

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From e8730f7244e786625284bc6d51c534618aade47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 04/21] fix: a scalar divisor which rounds to zero saturates
 instead of panicking

---
 src/complex/cartesian_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 2202c95..68a210e 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -434,10 +434,12 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div(self, rhs: T1) -> Self {
-        if rhs == T1::mixed_zero() {
+        // Also covers a non-zero rhs which is rounded to zero by the type cast.
+        let divisor = T2::mixed_from_num(rhs);
+        if divisor == T2::mixed_from_num(0i32) {
             return Cartesian::new(T2::mixed_max_value(), T2::mixed_max_value());
         }
-        return Cartesian::new(self.re/T2::mixed_from_num(rhs), self.im/T2::mixed_from_num(rhs));
+        return Cartesian::new(self.re/divisor, self.im/divisor);
     }
 }
 
@@ -455,13 +457,15 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
     /// ```
     #[inline]
     fn div_assign(&mut self, rhs: T1) {
-        if rhs == T1::mixed_zero() {
+        // Also covers a non-zero rhs which is rounded to zero by the type cast.
+        let divisor = T2::mixed_from_num(rhs);
+        if divisor == T2::mixed_from_num(0i32) {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
             return;
         }
-        self.re = self.re/T2::mixed_from_num(rhs);
-        self.im = self.im/T2::mixed_from_num(rhs);
+        self.re = self.re/divisor;
+        self.im = self.im/divisor;
     }
 }
 
-- 
2.43.0


From c3e4edcf22117c91fd9f42aac2845b367de3ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 05/21] fix: wrap_phase terminates for any phase and does not
 overflow narrow formats

---
 src/trigonometry.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..53cb986 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,24 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
-    let tau = T::mixed_from_num(2)*mixed_pi;
  
     let mut temp_scalar = phi;
+
+    // Remove all whole turns at once, for the loops below to be bounded for any phi.
+    // τ is only formed here, as types which cannot hold τ do not hold any whole turn either.
+    let half = phi/T::mixed_from_num(2);
+    if half < -mixed_pi || mixed_pi <= half
+    {
+        temp_scalar = phi % (T::mixed_from_num(2)*mixed_pi);
+    }
     
     while temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        temp_scalar = temp_scalar + mixed_pi + mixed_pi;
     }
     while mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
     }
     return temp_scalar;
 }
-- 
2.43.0


From d94f10b7df09940351be47e98272ba20c5669af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 06/21] fix: negative integer powers of int and fixed types

---
 src/fixed_impl.rs | 8 ++++++++
 src/int_impl.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..76ea0c1 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,6 +168,10 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( <$T>::mixed_one() / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
@@ -222,6 +226,10 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( <$T>::mixed_one() / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..a15faee 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,6 +49,10 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
+                if exp < 0
+                {
+                    return trigonometry::powi( <$T>::mixed_one() / *self, exp.unsigned_abs() as usize );
+                }
                 return trigonometry::powi( *self, exp as usize );
             }
         }
-- 
2.43.0


From 204808614e67f223055a759cee0b7963779e7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:48 +0000
Subject: [PATCH 07/21] fix: square root of formats which cannot hold the
 number four

---
 src/trigonometry/sqrt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..0f04196 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,12 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2); // Not all types can hold 4.
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From f361b5464203a881fb108c954d745548e9aec83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:52 +0000
Subject: [PATCH 08/21] fix: square root of unsigned fixed point numbers with a
 negative residual

---
 src/trigonometry/sqrt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 0f04196..cf1b28c 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -140,7 +140,16 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     let mut y = (T::mixed_from_num(2)*x_)/T::mixed_from_num(3) + T::mixed_from_num(0.354167);   // y0
     for _n in 1..iterations
     {
-        y = beta(x_)*(x_-y.mixed_powi(2))+y;
+        // The residual is kept positive, as unsigned types cannot hold a negative one.
+        let y_sqr = y.mixed_powi(2);
+        if y_sqr <= x_
+        {
+            y = y+beta(x_)*(x_-y_sqr);
+        }
+        else
+        {
+            y = y-beta(x_)*(y_sqr-x_);
+        }
     }
 
     while norm.abs() != 0
-- 
2.43.0


From f17db523f346398ace7f263dacfc9f5aa1fa8fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 09/21] fix: the NIIRF square root of infinity terminates

---
 src/trigonometry/sqrt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index cf1b28c..4f88f95 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -76,6 +76,10 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     }
     while T::mixed_from_num(1.0) <= x_
     {
+        if x_ == x_/T::mixed_from_num(2)
+        {
+            return x_; // Infinity can not be normalized.
+        }
         norm +=1;
         x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
-- 
2.43.0


From 81a84a6c8f64c9279606ce0f7bf5177caeb95288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 10/21] fix: polynomial atan2 of small and large arguments

---
 src/trigonometry/atan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index 7c12cff..eea9185 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -15,7 +15,9 @@
 fn atan_poly_1<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi = (x*y) / ( x.mixed_powi(2) + T::mixed_from_num( 0.28125 )*y.mixed_powi(2) );
+    // On the ratio, as the squares of x and y may over- or underflow.
+    let z   = y/x;
+    let phi = z / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*z.mixed_powi(2) );
     return phi;
 }
 
@@ -34,7 +36,9 @@ fn atan_poly_1<T>( y: T, x: T ) -> T
 fn atan_poly_2<T>( y: T, x: T ) -> T
     where T: crate::MixedNum + crate::MixedNumSigned + crate::MixedOps + crate::MixedPowi
 {
-    let phi     = (x*y) / ( y.mixed_powi(2) + T::mixed_from_num( 0.28125 )*x.mixed_powi(2) );
+    // On the ratio, as the squares of x and y may over- or underflow.
+    let z   = x/y;
+    let phi = z / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*z.mixed_powi(2) );
     return phi;
 }
 
-- 
2.43.0


From 37a2e3835201eaa2dca9672da300b68a4b3b3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 11/21] fix: documented accuracy of the polynomial atan2

---
 src/traits/math_traits.rs | 2 +-
 src/trigonometry/atan.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/math_traits.rs b/src/traits/math_traits.rs
index b737b76..64e371a 100644
--- a/src/traits/math_traits.rs
+++ b/src/traits/math_traits.rs
@@ -53,7 +53,7 @@ pub trait MixedAtan
     fn mixed_atan2(&self, other:Self) -> Self;
     /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
     /// 
-    /// The method is accurat within 0.028 degrees.
+    /// The method is accurate within 0.29 degrees.
     /// 
     /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
     /// 
diff --git a/src/trigonometry/atan.rs b/src/trigonometry/atan.rs
index eea9185..bfcbbf3 100644
--- a/src/trigonometry/atan.rs
+++ b/src/trigonometry/atan.rs
@@ -45,7 +45,7 @@ fn atan_poly_2<T>( y: T, x: T ) -> T
 
 /// Calculate atan2(y,x) using a selection of polynomial approximations, one for each octant in the unit circle.
 /// 
-/// The method is accurat within 0.028 degrees.
+/// The method is accurate within 0.29 degrees.
 /// 
 /// \[1\] R. G. Lyons, Streamlining Digital Signal Processing, Second Edition, IEEE Press, 2012.
 /// 
-- 
2.43.0


From 2ec95e2c33335a2a0924e8826d07565d703074d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 12/21] fix: polynomial sine of formats which cannot hold 5040

---
 src/trigonometry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index 53cb986..62c2ac7 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -88,8 +88,9 @@ pub fn sin<T>( x: T ) -> T
     // Calculate sine by using 
     let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
     sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // 5040 and 362880 are split in factors, as not all types can hold them.
+    sinx -= x_.mixed_powi(7)/T::mixed_from_num(72)/T::mixed_from_num(70);
+    sinx += x_.mixed_powi(9)/T::mixed_from_num(72)/T::mixed_from_num(72)/T::mixed_from_num(70);
     return sinx;
 }
 
-- 
2.43.0


From b6bfa6f27044eef9694b0bd315ec25b40df46103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 13/21] fix: fixed point atan and atan2 of ratios outside unity

---
 src/fixed_impl.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 76ea0c1..c5d1c08 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -309,11 +309,31 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan(&self) -> Self {
+                // Outside unity the rotated vector may overflow, the reciprocal stays within.
+                let one = <$T>::mixed_one();
+                if one < *self
+                {
+                    return <$T>::FRAC_PI_2 - cordic::atan(one / *self);
+                }
+                if *self < -one
+                {
+                    return -<$T>::FRAC_PI_2 - cordic::atan(one / *self);
+                }
                 return cordic::atan(*self);
             }
             /// Take the atan of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_atan2(&self, other:Self) -> Self {
+                // A ratio above unity may overflow, its reciprocal stays within.
+                if other != <$T>::mixed_zero() && other.unsigned_abs() < self.unsigned_abs()
+                {
+                    let phi = cordic::atan(other / *self);
+                    if *self < <$T>::mixed_zero()
+                    {
+                        return -<$T>::FRAC_PI_2 - phi;
+                    }
+                    return <$T>::FRAC_PI_2 - phi;
+                }
                 return cordic::atan2(*self, other);
             }
             /// Take the atan of self. Implementation varies with type.
-- 
2.43.0


From c1753c755baab87a69b4190909271500ad9422f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:50 +0000
Subject: [PATCH 14/21] fix: fixed point asin and acos of formats with many
 fractional bits

cordic::asin shifts by twice the loop counter, which exceeds the width of the type for formats
with many fractional bits. Compute the arcsine from the arctangent instead.
---
 src/fixed_impl.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index c5d1c08..cb86fc4 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -282,7 +282,17 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_asin(&self) -> Self {
-                return cordic::asin(*self);
+                // cordic::asin shifts by up to twice the number of fractional bits, which may exceed the width of the type.
+                let one = <$T>::mixed_one();
+                if one <= *self
+                {
+                    return <$T>::FRAC_PI_2;
+                }
+                if *self <= -one
+                {
+                    return -<$T>::FRAC_PI_2;
+                }
+                return self.mixed_atan2(cordic::sqrt((one - *self)*(one + *self)));
             }
         }
 
@@ -296,7 +306,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_acos(&self) -> Self {
-                return cordic::acos(*self);
+                return <$T>::FRAC_PI_2 - self.mixed_asin();
             }
         }
 
-- 
2.43.0


From 65cda5c57b5354ecf9a2cce3a77b42ee9327446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:24 +0000
Subject: [PATCH 15/21] fix: fixed point sine and cosine of large angles
 terminate

---
 src/fixed_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index cb86fc4..88fd6bc 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -271,13 +271,14 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the sin of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_sin(&self) -> Self {
-                return cordic::sin(*self);
+                // cordic reduces the angle by π at a time, which does not finish for large angles.
+                return cordic::sin(trigonometry::wrap_phase(*self));
             }
             #[inline(always)]
             fn mixed_sincos(&self) -> (Self, Self) 
                 where Self: Sized
             {
-                return cordic::sin_cos(*self);
+                return cordic::sin_cos(trigonometry::wrap_phase(*self));
             }
             /// Take the arcsin of self. Implementation varies with type.
             #[inline(always)]
@@ -301,7 +302,7 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the cos of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_cos(&self) -> Self {
-                return cordic::cos(*self);
+                return cordic::cos(trigonometry::wrap_phase(*self));
             }
             /// Take the arccos of self. Implementation varies with type.
             #[inline(always)]
-- 
2.43.0


From decb8d47baed84ce24ce892b5601f36e4730ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 16/21] fix: fixed point exp of large negative numbers
 terminates

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index 88fd6bc..c32f7ec 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -359,6 +359,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
             /// Take the exp() of self. Implementation varies with type.
             #[inline(always)]
             fn mixed_exp(&self) -> Self {
+                // cordic divides by e once per unit, below this the result is zero in all supported formats.
+                if *self < -64
+                {
+                    return <$T>::mixed_zero();
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0


From a4e8d22d43b0cdfecbafbbecf577f1b2dbcfb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 17/21] fix: documented accuracy of the NIIRF square root

---
 src/traits/math_traits.rs | 2 +-
 src/trigonometry/sqrt.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/math_traits.rs b/src/traits/math_traits.rs
index 64e371a..8c095a3 100644
--- a/src/traits/math_traits.rs
+++ b/src/traits/math_traits.rs
@@ -118,7 +118,7 @@ pub trait MixedSqrt
     /// A fast implementation of the square root using the Nonlinear IIR Filter (NIIRF) method \[1\].
     /// 
     /// Only valid for positive values of `self`. Negative values are forced positive before converison.
-    /// Accurate to 5*10⁻⁴ with two iterations \[2\].
+    /// Accurate to 7.5*10⁻⁴ with two iterations \[2\], for an argument normalized to the range 0.25 to 1.
     /// 
     /// The structure of the estimator is illustrated below \[1\].
     /// 
diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 4f88f95..a4515d0 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -5,7 +5,7 @@ use crate::*;
 /// A fast implementation of the square root using the Nonlinear IIR Filter (NIIRF) method \[1\].
 /// 
 /// Only valid for positive values of x.
-/// Accurate to 5*10⁻⁴ with two iterations \[2\].
+/// Accurate to 7.5*10⁻⁴ with two iterations \[2\], for an argument normalized to the range 0.25 to 1.
 /// 
 /// The structure of the estimator is illustrated below \[1\].
 /// 
-- 
2.43.0


From 8eb387b128b0492b519b35cd3770943d9f9fc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 18/21] fix: product of polar and cartesian numbers is
 available for the supported types

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From 80da036ca11988eb67037a861225796cf2bd8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:23 +0000
Subject: [PATCH 19/21] fix: inverse hyperbolic cosine of a float below one is
 NaN

---
 src/float_impl/f32_impl.rs | 4 ++++
 src/float_impl/f64_impl.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/float_impl/f32_impl.rs b/src/float_impl/f32_impl.rs
index b46ac55..e2d8790 100644
--- a/src/float_impl/f32_impl.rs
+++ b/src/float_impl/f32_impl.rs
@@ -50,6 +50,10 @@ impl MixedCosh for f32
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm does not report every argument below one.
+        if *self < 1.0 {
+            return Self::NAN;
+        }
         return libm::acoshf(*self);
     }
 }
diff --git a/src/float_impl/f64_impl.rs b/src/float_impl/f64_impl.rs
index b1005c1..afb956e 100644
--- a/src/float_impl/f64_impl.rs
+++ b/src/float_impl/f64_impl.rs
@@ -50,6 +50,10 @@ impl MixedCosh for f64
     }
     #[inline(always)]
     fn mixed_acosh(&self) -> Self {
+        // libm does not report every argument below one.
+        if *self < 1.0 {
+            return Self::NAN;
+        }
         return libm::acosh(*self);
     }
 }
-- 
2.43.0


From 2df6334d93a2d49ed1aa0e0682f9075746c65b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 20/21] fix: square root of the minimum of a fixed point type
 terminates

---
 src/trigonometry/sqrt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index a4515d0..9642ef8 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -65,7 +65,8 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
         return T::mixed_zero();
     }
 
-    let mut x_ = x.mixed_abs();
+    // Not all types can hold the magnitude of their minimum value.
+    let mut x_ = if x == T::mixed_min_value() { T::mixed_max_value() } else { x.mixed_abs() };
 
     // First we normalize x to the range 0.25 =< x < 1.
     let mut norm = 0i32; // Number of normalizations.
-- 
2.43.0


From b58c3c0f08df09941cf0e6fe5cefb29fbc39fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 21/21] fix: exponential of large fixed point numbers
 terminates

---
 src/fixed_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index c32f7ec..7ebdb14 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -364,6 +364,11 @@ macro_rules! impl_mixed_num_for_fixed_signed{
                 {
                     return <$T>::mixed_zero();
                 }
+                // Likewise it multiplies by e once per unit, above this the result overflows all supported formats.
+                if 64 < *self
+                {
+                    return cordic::exp(<$T>::from_num(64));
+                }
                 return cordic::exp(*self);
             }
         }
-- 
2.43.0

