From 62d9094eb64f08c1eb50712e95b570bf67a98416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 1/5] fix: EllStable keeps the LDL^T factors of the shape
 matrix in step with the cuts

The forward substitution stored L_ij*w_j in the scratch triangle although the
rank-one update of L needs the partial residual of w_i, and the back
substitution read that scratch triangle instead of L^T.  As L started as the
identity it never changed, so from the second non-axis-aligned cut on the
ellipsoid was not the one the cuts define and could lose the solution.
The rank-one update is also written so that sigma == 0 (a cut at the
no-effect boundary) no longer divides inf by inf.
---
 src/ell_stable.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..8719e42 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -62,9 +62,9 @@ impl EllStable {
         for i in 1..ndim {
             let row_start_i = i * n;
             for j in 0..i {
-                let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
-                inv_ml_g[i] -= val;
+                inv_ml_g[i] -= self.mq.at(j, i) * inv_ml_g[j];
+                // keep the partial residual for the rank-one update of L below
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i];
             }
         }
 
@@ -93,7 +93,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
@@ -104,12 +104,11 @@ impl EllStable {
         }
 
         // Rank-one update
-        let mu_val = sigma / (1.0 - sigma);
-        let mut oldt = omega / mu_val;
+        let mut oldt = (1.0 - sigma) * omega;
         let last_idx = ndim - 1;
         for j in 0..last_idx {
-            let temp = oldt + gg_t[j];
-            let beta2 = inv_md_inv_ml_g[j] / temp;
+            let temp = oldt + sigma * gg_t[j];
+            let beta2 = sigma * inv_md_inv_ml_g[j] / temp;
             self.mq.data_mut()[j * n + j] *= oldt / temp;
             let row_start_j = j * n;
             for l in (j + 1)..ndim {
@@ -117,7 +116,7 @@ impl EllStable {
             }
             oldt = temp;
         }
-        let temp = oldt + gg_t[last_idx];
+        let temp = oldt + sigma * gg_t[last_idx];
         self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
         self.kappa *= delta;
 
-- 
2.43.0


From 74e96ab0f16751248cbb812f7e5594d21a7b706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 2/5] fix: bsearch narrows the caller's interval

The interval is taken by mutable reference, but the bounds were copied out and
never written back, so the caller could not learn the bracket that was found.
---
 src/cutting_plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..81a106e 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -461,6 +461,7 @@ where
         } else {
             lower = gamma;
         }
+        *intrvl = (lower, upper);
     }
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From 1aa4a6cc1bc3d95558db596591bd4d80cdbc49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 3/5] fix: conjugate_gradient accepts an initial guess that
 already solves the system

With b = 0 (or an exact initial guess) the first direction is zero, which was
reported as non-convergence although the residual is below the tolerance.
---
 src/conjugate_gradient.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..773d1f6 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -35,6 +35,10 @@ pub fn conjugate_gradient(
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
 
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
+
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
         let dir_dot_a_dir = direction.dot(&a_dir);
-- 
2.43.0


From a8a6c22563b59e0f475db461c5fcf9f00a42ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 4/5] fix: create_lowpass_case builds a non-empty pass band

The pass-band ripple was computed as log10(0.025*pi), which is negative and
made the lower pass-band bound larger than the upper one, so the generated
filter problem had no solution for any order.  The ripple of +/-2.5% around
0 dB is 20*log10(1 + 0.025).
---
 src/oracles/lowpass_oracle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..f37e2f5 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -153,7 +153,7 @@ impl OracleOptim<Arr> for LowpassOracle {
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
     let delta0_wpass = 0.025;
     let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
+    let delta1 = 20.0 * (1.0f64 + delta0_wpass).log10();
     let delta2 = 20.0 * (delta0_wstop * PI).log10();
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
-- 
2.43.0


From ae2738370cf4fe4e0ba8810029b63cec9c58d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 5/5] fix: discrete parallel cut reports no solution when the
 second cut misses the ellipsoid

For beta1 < -tau the half space g'(x - xc) + beta1 >= 0 does not meet the
ellipsoid, but the update was reported as successful with a negative delta,
which leaves a search space with negative kappa.
---
 src/ell_calc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..c697148 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -790,7 +790,7 @@ impl EllCalc {
         beta1: f64,
         tsq: f64,
     ) -> (CutStatus, (f64, f64, f64)) {
-        if beta1 < beta0 {
+        if beta1 < beta0 || (beta1 < 0.0 && tsq < beta1 * beta1) {
             return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
         }
 
-- 
2.43.0

