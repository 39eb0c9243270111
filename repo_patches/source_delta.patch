From 59ce6fe4cba2707f46998a8b6da546002d8bdf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 1/5] fix: GERG-2008 density(iflag > 0) no longer fails for
 converged single-phase states

The two-phase check returned IterationFail whether or not the check failed,
so density() with iflag > 0 could never succeed.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..3e5541d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 6c1cf485e86cfdede509ba7fd09d8ca291a9b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 2/5] fix: Composition::check rejects a sum that is not a
 number

Both comparisons are false for NaN, so a composition with a NaN component
passed the check and was accepted by set_composition.
---
 src/composition.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..bb311e2 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -170,6 +170,9 @@ impl Composition {
         if (self.sum() - 1.0).abs() > 1.0e-2 {
             return Err(CompositionError::BadSum);
         }
+        if self.sum().is_nan() {
+            return Err(CompositionError::BadSum);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 7f182b4a1e74eb5011a1653f3bdd91354de70478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 3/5] fix: Composition::normalize reports a sum that overflows
 instead of zeroing or NaN-ing the composition

With an infinite sum the scale factor is zero: finite components became 0.0
and infinite ones NaN, and Ok was returned.
---
 src/composition.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index bb311e2..6f41d3d 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -121,6 +121,9 @@ impl Composition {
     /// ```
     pub fn normalize(&mut self) -> Result<(), CompositionError> {
         let sum = self.sum();
+        if sum == f64::INFINITY {
+            return Err(CompositionError::BadSum);
+        }
         if sum > 0.0 {
             let factor = 1.0 / sum;
 
-- 
2.43.0


From 6dc172a054f073c955820e9f482211aa92c8434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 4/5] fix: DETAIL caches are refreshed whenever composition or
 temperature changes

Changes of at most 1e-7 were ignored while the remembered value still moved
along, so many small steps drifted without bound, a component added at trace
level could be missed, and a NaN poisoned the next valid call.
---
 src/detail.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
-- 
2.43.0


From ff9f96d8882e384e7f44f162e653e5acc3ea5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 5/5] fix: GERG-2008 caches are refreshed whenever composition
 or temperature changes

Same defect as in DETAIL: changes of at most 1e-7 were ignored while the
remembered value still moved along, and a component first added below 1e-7
used temperature terms that had never been computed for it.
---
 src/gerg2008.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 3e5541d..bc3f0b7 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0

