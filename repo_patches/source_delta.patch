From 7379713191c8bd04a0c44dffa288b58cc08d22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 01/10] fix: find_idx stops only at repeated knots equal to the
 parameter

A repeated knot smaller (LeftOrEqual) or greater (RightOrEqual) than u ended
the search, so that insert and split placed u in front of it.
---
 src/curve/knots/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..5bbd3ae 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,7 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    if Uk[i] == u && Uk[i + 1] == Uk[i] {
                         break;
                     }
                 }
@@ -247,7 +247,7 @@ impl Knots {
 
                 while u <= Uk[i - 1] && i > pk {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    if Uk[i] == u && Uk[i - 1] == Uk[i] {
                         break;
                     }
                 }
-- 
2.43.0


From f41ed355512389811ac795246940b28574fd8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 02/10] fix: find_idx checks the lower limit before it reads
 the previous knot

With k = p the search for u = 0 read the knot at index -1.
---
 src/curve/knots/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 5bbd3ae..9f36423 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -245,9 +245,9 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
-                    if Uk[i] == u && Uk[i - 1] == Uk[i] {
+                    if i > pk && Uk[i] == u && Uk[i - 1] == Uk[i] {
                         break;
                     }
                 }
-- 
2.43.0


From 7bd4a2dcc5f250c044a98374351e60c405d37f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 03/10] fix: segments_derivative does not underflow for
 derivatives above (p + 2) / 2

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 9f36423..2bacb0e 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From c4839c4ff8eb8a847b755521a443ca5adf8bc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 04/10] fix: insert and split reject NaN as out of bounds

---
 src/manipulation/insert.rs | 2 +-
 src/manipulation/split.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..2a3889d 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..1e5dc7a 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From 0572686a65ee57e953b34570c0c30a40545c3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 05/10] fix: get_derivative_curve returns a curve with its own
 derivatives

The derivative control points were missing, so that evaluating or manipulating
the derivative curve panicked.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..11c435d 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut c = Curve { knots, points };
+        c.calculate_derivatives();
+        c
     }
 }
 
-- 
2.43.0


From fbd352f7ffc0fe441b9a785f5eb88c9a1cb50b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 06/10] fix: prepend_constrained applies each constraint to its
 own curve

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 11c435d..57c8d3a 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From 0c89297a1af6609eaf68e1f1c10c49ab0ffb85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 07/10] fix: merge computes the joint control points from the
 right derivatives

The control point itself was stored twice, so that every derivative control
point was used one order too high; curves of degree three and above were
merged wrongly.
---
 src/manipulation/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..ecba5be 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,7 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From 9be55061ece88c02fd880d0b2b22b89a49be63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 08/10] fix: merge curves with different numbers of segments

The control points of the right curve were adjusted with the segment count of
the left one, which panicked unless the counts agreed.
---
 src/manipulation/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index ecba5be..4072de5 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -134,7 +134,7 @@ pub(crate) fn merge_with_constraints(a: &ConstrainedCurve, b: &ConstrainedCurve)
 
     // adjust control points
     let (Sadj, Tadj) =
-        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
+        adjust_shifted_control_points_of_both_splines(a.curve, b.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
 
     // do actual merge
     let P_merged = generate_control_point_vector_of_merged_spline(a.curve, b.curve, &Sadj, &Tadj);
@@ -513,6 +513,7 @@ fn adjust_shifted_control_points(
 
 fn adjust_shifted_control_points_of_both_splines(
     a: &Curve,
+    b: &Curve,
     Sshifted: &MatD,
     Tshifted: &MatD,
     Vadj: &VecD,
@@ -532,7 +533,7 @@ fn adjust_shifted_control_points_of_both_splines(
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, b.segments(), dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From 915607deec447ad4bc57c9dc02c061d9e8e36f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 09/10] fix: the fixed-ends fit rejects kappa > n - 2 instead
 of panicking

Only the n - 1 inner control points are penalized, so that differences of order
n - 1 do not exist. input_checks let them pass to an assertion.
---
 src/curve/points/methods/fit/fixed.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..7c0c065 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,6 +20,15 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    let n = knots.segments();
+    match &penalization {
+        // Only the `n - 1` inner control points are penalized.
+        Some(pen) if pen.kappa + 2 > n => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa });
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 25c607b44dd04aca2a4600a0f1bcc9bcb2252896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 10/10] fix: the fixed-ends fit of a single segment

Without inner control points the singular value decomposition of an empty matrix
panicked; the two end points are the result.
---
 src/curve/points/methods/fit/fixed.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 7c0c065..f4e1099 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -21,6 +21,7 @@ pub fn fit(
     input_checks(knots, points, params, &penalization)?;
 
     let n = knots.segments();
+    let m = points.segments();
     match &penalization {
         // Only the `n - 1` inner control points are penalized.
         Some(pen) if pen.kappa + 2 > n => {
@@ -29,6 +30,17 @@ pub fn fit(
         _ => {}
     }
 
+    let mut control_points = MatD::zeros(points.dimension(), n + 1);
+
+    // Set the first and last control point to the original data points
+    control_points.column_mut(0).copy_from(&points.get(0));
+    control_points.column_mut(n).copy_from(&points.get(m));
+
+    // There are no inner control points to be fitted
+    if n == 1 {
+        return Ok(control_points);
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
@@ -36,14 +48,6 @@ pub fn fit(
     let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
     let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
 
-    let n = knots.segments();
-    let m = points.segments();
-    let mut control_points = MatD::zeros(points.dimension(), n + 1);
-
-    // Set the first and last control point to the original data points
-    control_points.column_mut(0).copy_from(&points.get(0));
-    control_points.column_mut(n).copy_from(&points.get(m));
-
     // TODO copy matrix view instead of individual columns
     for i in 1..=n - 1 {
         control_points.column_mut(i).copy_from(&internal_control_points.column(i - 1));
-- 
2.43.0

