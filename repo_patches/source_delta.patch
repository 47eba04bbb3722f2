From 5ef53f407237579f5f9e2acc0e7e8835331d86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 1/6] fix: evaluate the Gauss-Jacobi recurrence accurately when
 alpha + beta is close to -1 or -2

The second recurrence coefficient and the zeroth moment have a removable
singularity at alpha + beta = -1, where the rule came out as NaN (or with a
large loss of precision close by), and alpha + beta + 2 lost all precision
when both parameters are close to -1, giving nodes outside of [-1, 1].
---
 src/jacobi/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..1e8caea 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -98,35 +98,44 @@ impl GaussJacobi {
             };
         }
 
+        // This is alpha + beta + 2. Adding one to each parameter first is exact where it matters,
+        // so the sum keeps its relative precision even when both parameters are close to -1.
+        let sum_p2 = (1.0 + alpha.get()) + (1.0 + beta.get());
+
         let mut node_weight_pairs = golub_welsch(
             deg,
             |idx| {
                 if idx == 0 {
-                    (beta.get() - alpha.get()) / (2.0 + beta.get() + alpha.get())
+                    (beta.get() - alpha.get()) / sum_p2
                 } else {
-                    let denom_sum = 2.0 * (idx as f64) + alpha.get() + beta.get();
-                    (beta.get() * beta.get() - alpha.get() * alpha.get())
+                    let denom_sum = 2.0 * (idx as f64 - 1.0) + sum_p2;
+                    (beta.get() - alpha.get()) * (beta.get() + alpha.get())
                         / (denom_sum * (denom_sum + 2.0))
                 }
             },
             |idx| {
+                if idx == 0 {
+                    // The general expression has a factor of 1 + alpha + beta in both its numerator
+                    // and its denominator here, and can not be evaluated when that factor is zero.
+                    return 2.0 / sum_p2
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (sum_p2 + 1.0));
+                }
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
-                let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                let denom_sum = 2.0 * idx_f64 + sum_p2;
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
                             * (idx_p1 + alpha.get())
                             * (idx_p1 + beta.get())
-                            * (idx_p1 + alpha.get() + beta.get())
+                            * (idx_f64 - 1.0 + sum_p2)
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(sum_p2),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 056e158fccdaa36f1a5da2a3c411251ed2534438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 2/6] fix: compute the Gauss-Jacobi zeroth moment without
 overflow for large parameters

The powers and gamma functions it is built from overflow for alpha + beta
above about 150 even though their ratio is moderate, which turned all the
weights into inf, NaN or zero.
---
 src/jacobi/mod.rs | 12 ++------
 src/math.rs       | 75 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 77 insertions(+), 10 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 1e8caea..03d135a 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -27,7 +27,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use crate::{
     __impl_node_weight_rule, FiniteAboveNegOneF64, GaussChebyshevFirstKind,
     GaussChebyshevSecondKind, GaussLegendre, Node, Weight,
-    math::{gamma, pow, sqrt},
+    math::{jacobi_zeroth_moment, sqrt},
 };
 
 use crate::golub_welsch::golub_welsch;
@@ -87,10 +87,7 @@ impl GaussJacobi {
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
             let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
-            let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+            let weight = jacobi_zeroth_moment(alpha.get(), beta.get());
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -132,10 +129,7 @@ impl GaussJacobi {
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
-            pow(2.0f64, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(sum_p2),
+            jacobi_zeroth_moment(alpha.get(), beta.get()),
         );
 
         // TO FIX: implement correction
diff --git a/src/math.rs b/src/math.rs
index afa59e8..cb1fbe3 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -9,7 +9,7 @@
 //! <https://docs.rs/statrs/latest/src/statrs/function/gamma.rs.html>.
 //! The reason for this is the reduction of dependencies.
 
-use core::f64::consts::{E, PI};
+use core::f64::consts::{E, LN_2, PI};
 
 #[cfg(not(any(feature = "std", feature = "libm")))]
 compile_error!("one of the `libm` or `std` features must be enabled");
@@ -90,6 +90,44 @@ pub(crate) fn sqrt(x: f64) -> f64 {
     }
 }
 
+/// Calculates the exponential function of the argument.
+#[inline]
+pub(crate) fn exp(x: f64) -> f64 {
+    #[cfg(feature = "std")]
+    {
+        x.exp()
+    }
+
+    #[cfg(all(feature = "libm", not(feature = "std")))]
+    {
+        libm::exp(x)
+    }
+
+    #[cfg(not(any(feature = "std", feature = "libm")))]
+    {
+        panic!("can not compute exp({x}) without a math backend");
+    }
+}
+
+/// Calculates the natural logarithm of the argument.
+#[inline]
+pub(crate) fn ln(x: f64) -> f64 {
+    #[cfg(feature = "std")]
+    {
+        x.ln()
+    }
+
+    #[cfg(all(feature = "libm", not(feature = "std")))]
+    {
+        libm::log(x)
+    }
+
+    #[cfg(not(any(feature = "std", feature = "libm")))]
+    {
+        panic!("can not compute ln({x}) without a math backend");
+    }
+}
+
 /// Constant value for `2 * sqrt(e / pi)`
 const TWO_SQRT_E_OVER_PI: f64 = 1.860_382_734_205_265_7;
 
@@ -135,6 +173,41 @@ pub(crate) fn gamma(x: f64) -> f64 {
     }
 }
 
+/// Computes the natural logarithm of the gamma function for `x >= 0.5`,
+/// using the same approximation as [`gamma`].
+fn ln_gamma(x: f64) -> f64 {
+    let s = GAMMA_DK
+        .iter()
+        .enumerate()
+        .skip(1)
+        .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
+
+    ln(s * TWO_SQRT_E_OVER_PI) + (x - 0.5) * ln((x - 0.5 + GAMMA_R) / E)
+}
+
+/// Computes the integral of `(1 - x)^alpha * (1 + x)^beta` over [-1, 1]
+/// where `alpha > -1` and `beta > -1`.
+pub(crate) fn jacobi_zeroth_moment(alpha: f64, beta: f64) -> f64 {
+    let sum_p2 = (1.0 + alpha) + (1.0 + beta);
+
+    if sum_p2 < 140.0 {
+        pow(2.0, alpha + beta + 1.0) * gamma(alpha + 1.0) * gamma(beta + 1.0) / gamma(sum_p2)
+    } else {
+        // The individual factors overflow long before their ratio does.
+        // The gamma function of the smaller argument is factored out of the exponential,
+        // since that argument may be small enough to be outside the domain of `ln_gamma`.
+        let min_p1 = 1.0 + alpha.min(beta);
+        let max_p1 = 1.0 + alpha.max(beta);
+        let (gamma_min, ln_gamma_min) = if min_p1 < 0.5 {
+            (gamma(min_p1), 0.0)
+        } else {
+            (1.0, ln_gamma(min_p1))
+        };
+
+        gamma_min * exp((sum_p2 - 1.0) * LN_2 + ln_gamma_min + ln_gamma(max_p1) - ln_gamma(sum_p2))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::gamma;
-- 
2.43.0


From 8eae80b1be4ba4d64778620858260720d806973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 3/6] fix: do not overflow in the gamma function before its
 value does

Gauss-Laguerre rules with alpha between about 168.8 and 170.6 had infinite weights.
---
 src/math.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index cb1fbe3..542d27b 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -169,7 +169,15 @@ pub(crate) fn gamma(x: f64) -> f64 {
             .skip(1)
             .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+        let base = (x - 0.5 + GAMMA_R) / E;
+        let exponent = x - 0.5;
+        if x < 140.0 {
+            s * TWO_SQRT_E_OVER_PI * pow(base, exponent)
+        } else {
+            // The full power overflows before the gamma function does since the prefactor is small.
+            let half_power = pow(base, 0.5 * exponent);
+            s * TWO_SQRT_E_OVER_PI * half_power * half_power
+        }
     }
 }
 
-- 
2.43.0


From c3bfebb87f591365731f35bf5904d3983bfc9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 4/6] fix: reject out of range values when deserializing
 FiniteAboveNegOneF64

The derived serde implementation accepted any number, so that values at or below -1
(or infinite, or NaN) could end up in the type, and in Jacobi and Laguerre rules.
---
 src/data_api.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..6313ce9 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -23,7 +23,7 @@ pub type Node = f64;
 pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(serde::Serialize))]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
@@ -185,6 +185,23 @@ impl FromStr for FiniteAboveNegOneF64 {
     }
 }
 
+// Implemented by hand since a derived implementation would accept values that break the invariant of the type.
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for FiniteAboveNegOneF64 {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        // Has the same name and shape as the real type, so that the serialized format is the same.
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "FiniteAboveNegOneF64")]
+        struct Unchecked(f64);
+
+        let Unchecked(value) = Unchecked::deserialize(deserializer)?;
+        Self::new(value).ok_or_else(|| serde::de::Error::custom(InfNanNegOneOrLessError))
+    }
+}
+
 /// This macro implements the data access API for the given quadrature rule struct that contains
 /// a field named `node_weight_pairs` of the type `Box<[(Node, Weight)]>`.
 /// It takes in the name of the quadrature rule struct as well as the names it should give the iterators
-- 
2.43.0


From b83630185f521a657f10f543801e17a7e6e60e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 5/6] fix: derive the rkyv and zerocopy traits for all
 quadrature rule structs

The features are documented to implement the traits for the quadrature rule structs, but rkyv
was missing for GaussChebyshevSecondKind, and both were missing for Midpoint, Simpson and Trapezoid.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 5 +++++
 src/simpson/mod.rs   | 5 +++++
 src/trapezoid/mod.rs | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..6ed0d75 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..1ae402e 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..4e012f8 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..d7577bf 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,11 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0


From c3823ecc3347dea9b6ff6371ddaf14ebe9a956d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 6/6] fix: compute the single Gauss-Jacobi node accurately when
 both parameters are close to -1

---
 src/jacobi/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 03d135a..6abed83 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -84,9 +84,13 @@ impl GaussJacobi {
             _ => (),
         }
 
+        // This is alpha + beta + 2. Adding one to each parameter first is exact where it matters,
+        // so the sum keeps its relative precision even when both parameters are close to -1.
+        let sum_p2 = (1.0 + alpha.get()) + (1.0 + beta.get());
+
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
-            let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
+            let node = (beta.get() - alpha.get()) / sum_p2;
             let weight = jacobi_zeroth_moment(alpha.get(), beta.get());
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
@@ -95,10 +99,6 @@ impl GaussJacobi {
             };
         }
 
-        // This is alpha + beta + 2. Adding one to each parameter first is exact where it matters,
-        // so the sum keeps its relative precision even when both parameters are close to -1.
-        let sum_p2 = (1.0 + alpha.get()) + (1.0 + beta.get());
-
         let mut node_weight_pairs = golub_welsch(
             deg,
             |idx| {
-- 
2.43.0

