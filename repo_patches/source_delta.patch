From bde03a72fd0dcaee3324590398ff17d4f2077b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:52 +0000
Subject: [PATCH 01/22] fix: in-place complex product and quotient read the
 updated real part

The imaginary part was computed from the already overwritten real part, so
a *= b and a /= b differed from a * b and a / b.
---
 src/math/cfloat/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..467e058 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,10 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    let x = self.x;
+
+    self.x = x * rhs.x - self.y * rhs.y;
+    self.y = x * rhs.y + self.y * rhs.x;
   }
 }
 
@@ -223,8 +225,10 @@ impl DivAssign for Cf32 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    let x = self.x;
+
+    self.x = (x * rhs.x + self.y * rhs.y) / den;
+    self.y = (self.y * rhs.x - x * rhs.y) / den;
   }
 }
 
@@ -347,8 +351,10 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    let x = self.x;
+
+    self.x = x * rhs.x - self.y * rhs.y;
+    self.y = x * rhs.y + self.y * rhs.x;
   }
 }
 
@@ -358,8 +364,10 @@ impl DivAssign for Cf64 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    let x = self.x;
+
+    self.x = (x * rhs.x + self.y * rhs.y) / den;
+    self.y = (self.y * rhs.x - x * rhs.y) / den;
   }
 }
 
-- 
2.43.0


From 0c7d8984242165c42d893ca697c59afdffc81f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 02/22] fix: double-precision phase covers the whole circle

The arctangent of y/x loses the quadrant, so numbers with a negative real
part got the phase of their opposite. Use atan2 like the single-precision type.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From ab8e6efcf062170de7fa0a75d69cf9995fb6468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 03/22] fix: cardioid derivatives are the Wirtinger derivatives

The derivative along y had the wrong sign and the factor one half of the
Wirtinger definition was missing.
---
 src/act/mod.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..9af1e07 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -259,13 +259,13 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   let y_factor = cos / norm;
 
   let dfdx = Cf32::new(
-    2.0 * x_factor * unfactor_re,
-    -2.0 * x_factor * unfactor_im
+    x_factor * unfactor_re,
+    -x_factor * unfactor_im
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -y_factor * unfactor_re,
+    y_factor * unfactor_im
   );
 
   dfdx - i * dfdy
@@ -287,13 +287,13 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   let y_factor = cos / norm;
 
   let dfdx = Cf64::new(
-    2.0 * x_factor * unfactor_re,
-    -2.0 * x_factor * unfactor_im
+    x_factor * unfactor_re,
+    -x_factor * unfactor_im
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -y_factor * unfactor_re,
+    y_factor * unfactor_im
   );
 
   dfdx - i * dfdy
@@ -315,13 +315,13 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   let y_factor = cos / norm;
 
   let dfdx = Cf32::new(
-    2.0 * x_factor * unfactor_re,
-    -2.0 * x_factor * unfactor_im
+    x_factor * unfactor_re,
+    -x_factor * unfactor_im
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -y_factor * unfactor_re,
+    y_factor * unfactor_im
   );
 
   dfdx + i * dfdy
@@ -343,13 +343,13 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   let y_factor = cos / norm;
 
   let dfdx = Cf64::new(
-    2.0 * x_factor * unfactor_re,
-    -2.0 * x_factor * unfactor_im
+    x_factor * unfactor_re,
+    -x_factor * unfactor_im
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -y_factor * unfactor_re,
+    y_factor * unfactor_im
   );
 
   dfdx + i * dfdy
-- 
2.43.0


From eeb490e5d873094f7caaceaaf1132d9ae71b8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 04/22] fix: mean-square loss divides by the number of outputs

The index of the last output was used as the number of outputs, which gave
an infinite or undefined loss for one output and a biased one otherwise.
---
 src/opt/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..676f52e 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -44,9 +44,8 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
   let mut len = 0;
   let sum_err = targ
     .zip(pred)
-    .enumerate()
-    .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+    .fold(0.0,|acc, (t, p)| {
+      len += 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -70,9 +69,8 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
   let mut len = 0;
   let sum_err = targ
     .zip(pred)
-    .enumerate()
-    .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+    .fold(0.0,|acc, (t, p)| {
+      len += 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From bef2c9001e2629d2c3d795969adde4c3e057f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:25 +0000
Subject: [PATCH 05/22] fix: cross-entropy loss stays finite for large
 predictions

The exponential of a squared modulus overflowed from a modulus of about 9
(single precision) on, and the loss became NaN. Shift by the maximum first.
---
 src/opt/mod.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 676f52e..cc98535 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -94,18 +94,21 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
   let real_targ = targ.map(|elm| { elm.re() });
 
   // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // (shifted by the maximum so that the exponentials stay finite)
+  let norm_map = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let norm_max = norm_map.iter()
+    .fold(0.0, |acc: f32, elm| { acc.max(*elm) });
+  let log_sum = norm_map.iter()
+    .fold(0.0, |acc: f32, elm| { acc + (*elm - norm_max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norm_map)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - norm_max - log_sum)
     });
 
   loss
@@ -124,18 +127,21 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
   let real_targ = targ.map(|elm| { elm.re() });
 
   // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // (shifted by the maximum so that the exponentials stay finite)
+  let norm_map = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let norm_max = norm_map.iter()
+    .fold(0.0, |acc: f64, elm| { acc.max(*elm) });
+  let log_sum = norm_map.iter()
+    .fold(0.0, |acc: f64, elm| { acc + (*elm - norm_max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norm_map)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - norm_max - log_sum)
     });
 
   loss
-- 
2.43.0


From 962b5c9fb911ebd15257f56b8d2e6ef9889400a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:46 +0000
Subject: [PATCH 06/22] fix: losses refuse a target and prediction of different
 size

The longer of the two was silently cut to the shorter one, for the loss
value and for its derivative.
---
 src/opt/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index cc98535..935d649 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -213,6 +213,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -227,6 +229,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -247,6 +251,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -261,6 +267,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -281,6 +289,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -294,6 +304,8 @@ impl ComplexLossFunc {
               .iter().flat_map(|elm| { elm.get_body() });
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
+
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
             
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
@@ -315,6 +327,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -328,6 +342,8 @@ impl ComplexLossFunc {
               .iter().flat_map(|elm| { elm.get_body() });
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
+
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
             
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
-- 
2.43.0


From abc809dc1d725d67a5f1b0607326ef2929bbc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:46 +0000
Subject: [PATCH 07/22] fix: cross-entropy derivative is the derivative of the
 cross-entropy

It returned the derivative of the squared error. For the softmax of the
squared moduli it is (sum of targets * softmax - target) * conj(prediction).
---
 src/opt/mod.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 935d649..439584f 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -116,8 +116,29 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a Cf32>>(targ: T1, pred: T2) -> Vec<Cf32> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf32(targ, pred)
+  // The real part should contain the one-hot-encoding
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter()
+    .fold(0.0, |acc: f32, elm| { acc + *elm });
+
+  // Compute softmax of the prediction
+  // (shifted by the maximum so that the exponentials stay finite)
+  let pred = pred.collect::<Vec<_>>();
+  let norm_max = pred.iter()
+    .fold(0.0, |acc: f32, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - norm_max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc: f32, elm| { acc + *elm });
+
+  // The squared norm differentiates to the conjugate of the prediction
+  real_targ.into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf32::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// Real Cross Entropy Loss Function.
@@ -149,8 +170,29 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a Cf64>>(targ: T1, pred: T2) -> Vec<Cf64> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf64(targ, pred)
+  // The real part should contain the one-hot-encoding
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter()
+    .fold(0.0, |acc: f64, elm| { acc + *elm });
+
+  // Compute softmax of the prediction
+  // (shifted by the maximum so that the exponentials stay finite)
+  let pred = pred.collect::<Vec<_>>();
+  let norm_max = pred.iter()
+    .fold(0.0, |acc: f64, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - norm_max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc: f64, elm| { acc + *elm });
+
+  // The squared norm differentiates to the conjugate of the prediction
+  real_targ.into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf64::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// List of possible loss function to use.
-- 
2.43.0


From fb5a1565b0a84f2dd150154a11389ed47dc5266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:40 +0000
Subject: [PATCH 08/22] fix: convolutional layers pass on the full gradient

The gradient for the previous layer left out the term through the conjugate
of the activation, and the conjugate gradient contained only that term.
Add both terms before applying the kernels, as the dense layer does.
---
 src/cvnn/layer/conv.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..f3ca4c8 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -213,7 +213,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let mut dldk = Vec::new();
         let mut dldb = Vec::new();
         let mut new_dlda = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
-        let mut new_dlda_conj = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
         let filters = self.kernels.rows_as_iter();
         filters.for_each(|filter| {
           /* collecting loss derivatives to matrices */
@@ -258,42 +257,33 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          // both terms contribute (dL/da * da/dq + dL/da* * da*/dq)
+          let mut dldq_feat = dlda_dadq_feat.clone();
+          dldq_feat.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dldq_padded = dldq_feat.pad((padx, pady));
 
           let oper_b = || {
-            let new_dlda_acc = fliped_filter
+            fliped_filter
               .iter()
               .flat_map(|flip_kernel| {
                 /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_padded
+                dldq_padded
                   .convolution(flip_kernel)
                   .unwrap()
                   .export_body()
-              }).collect::<Vec<_>>();
-            
-            let new_dlda_conj_acc = fliped_filter
-              .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
-            
-            (new_dlda_acc, new_dlda_conj_acc)
+              }).collect::<Vec<_>>()
           };
 
           /* using rayon join might be a good addition in the future */
           /* be careful because if it is not, you can change in the future for a more memory efficient approach */
-          let ((dldk_filter, dldb_filter), (new_dlda_acc, new_dlda_conj_acc)) = (oper_a(), oper_b());
+          let ((dldk_filter, dldb_filter), new_dlda_acc) = (oper_a(), oper_b());
           dldk.extend(dldk_filter);
           dldb.push(dldb_filter.into_iter().reduce(|acc, elm| { acc + elm }).unwrap());
           new_dlda.add_slice_mut(&new_dlda_acc).unwrap();
-          new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From d8404a213b83ea78e46e8c677005986bd7fcdeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:40 +0000
Subject: [PATCH 09/22] fix: upsampling keeps its size for every block and
 kernel size

The left margin of an odd block width was computed from the block height,
and the padding was only right for 3x3 kernels.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..0004e1c 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From ce51ca765cdeb6e4f13b0be2d5e5573a9844c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:40 +0000
Subject: [PATCH 10/22] fix: adding to or intercepting an empty network returns
 an error

Both calls panicked instead of reporting the missing input layer.
---
 src/cvnn/network/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..73833d3 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -72,6 +72,8 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Adds an already initialized layer.
   /// Layers need to be always initialized individually since that always have different specifications.
   pub fn add(&mut self, layer: CLayer<T>) -> Result<(), LayerAdditionError> {
+    if self.layers.len() == 0 { return Err(LayerAdditionError::MissingInput) }
+
     if layer.is_empty() { return Err(LayerAdditionError::MissingInitialization) }
 
     /* this already takes care if it is a matrix or a vector */
@@ -121,6 +123,8 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
+    if self.layers.len() == 0 { return Err(ForwardError::MissingLayers) }
+
     if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
-- 
2.43.0


From c02769c5203b49f9fe121dd7d87550ea82eb2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:37 +0000
Subject: [PATCH 11/22] fix: matrix row and column additions check length and
 capacity

add_col refused every column that fitted and accepted those that did not.
add_mut_row let the first row exceed the reserved number of columns.
---
 src/math/matrix/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 0004e1c..067472f 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,11 +202,11 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || (self.shape == [0, 0])) {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From a8da12b1c26957a626a6cd3b9bd017ac4ba0ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:37 +0000
Subject: [PATCH 12/22] fix: iterating, printing and exporting an empty matrix
 does not panic

The rows were taken in chunks of zero elements.
---
 src/math/matrix/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 067472f..bf917ee 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.body.chunks(self.shape[1].max(1)) {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -806,7 +806,7 @@ impl<T: Display + Copy> Matrix<T> {
     let mut file = File::create(path)?;
     
     let data_row_len = self.get_shape()[1];
-    let data_chunks = self.get_body().chunks(data_row_len);
+    let data_chunks = self.get_body().chunks(data_row_len.max(1));
 
     for row in data_chunks {
       for val in row.into_iter() {
-- 
2.43.0


From 32ce6675106c26ee7c4c3fcf71d8301df8d8e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:37 +0000
Subject: [PATCH 13/22] fix: random draws accept every seed and stay below the
 limit

The multiplication overflowed for seeds above 2^97, and integer draws could
return the limit itself because the width of a step was rounded down.
---
 src/math/random/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..d47c43d 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed * limit / (m-1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From c3a3955212387eeff85c7c481629d713efece414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:37 +0000
Subject: [PATCH 14/22] fix: normally distributed weights and noise are always
 finite

The logarithm of a random draw of exactly zero made them infinite or NaN.
---
 src/dataset/mod.rs | 4 ++--
 src/math/mod.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..beeed97 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,7 +286,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -308,7 +308,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..add4e1a 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From a95aebd63e2771bc3296d04fb7f05e34e505246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:37 +0000
Subject: [PATCH 15/22] fix: one-hot targets refuse a class equal to their size

The bound was off by one, so that class panicked instead of giving an error.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index add4e1a..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From c203e0d88ae7bd15ac6b22f0d41c049e4a2f745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:47 +0000
Subject: [PATCH 16/22] fix: image batches end where the files end

A short read or the end of a file repeated or mixed the previous image, and
the label of one image could be paired with another. Read whole points and
return a short batch when there are no more.
---
 src/dataset/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index beeed97..306fbef 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -3,7 +3,7 @@
 
 use std::fmt::Display;
 use std::{fmt::Debug, fs::File, slice::Iter, vec::IntoIter};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use crate::math::cfloat::Cf32;
 use crate::math::random::{lcgf32, lcgi};
@@ -108,9 +108,10 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      data_file.read_exact(&mut [0u8; 16]).unwrap();
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      label_file.read_exact(&mut [0u8; 8]).unwrap();
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -119,8 +120,12 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      match data_file.read_exact(image_buffer).and_then(|_| { label_file.read_exact(label_buffer) }) {
+        Ok(()) => { *tracker += 1; },
+        /* there are no more points */
+        Err(err) if err.kind() == ErrorKind::UnexpectedEof => { break; },
+        Err(err) => { panic!("Could not read a point of the dataset: {}", err) }
+      }
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -143,9 +148,10 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      data_file.read_exact(&mut [0u8; 16]).unwrap();
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      label_file.read_exact(&mut [0u8; 8]).unwrap();
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -154,8 +160,12 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      match data_file.read_exact(image_buffer).and_then(|_| { label_file.read_exact(label_buffer) }) {
+        Ok(()) => { *tracker += 1; },
+        /* there are no more points */
+        Err(err) if err.kind() == ErrorKind::UnexpectedEof => { break; },
+        Err(err) => { panic!("Could not read a point of the dataset: {}", err) }
+      }
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From 0aaba9162e8305603247cd143b60577fe54c7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:47 +0000
Subject: [PATCH 17/22] fix: signal batches accept an odd number of samples

The noise is added to pairs of samples and the last pair was assumed complete.
---
 src/dataset/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 306fbef..5c2c69b 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -288,7 +288,8 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        /* an odd number of samples leaves a single point at the end */
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -306,11 +307,12 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(train_seed);
         
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        /* an odd number of samples leaves a single point at the end */
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -328,7 +330,7 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(test_seed);
 
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
 
       // add to the dataset
-- 
2.43.0


From d857ee3f2a9dd274e9562d8741e426df9192ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:14 +0000
Subject: [PATCH 18/22] fix: pooling functions must be safe to share between
 threads

Layers were declared shareable whatever function a pooling layer holds, so
safe code could run a function with unsynchronised state from two threads.
Require Send + Sync of the function and let the compiler derive the rest.
---
 src/cvnn/layer/mod.rs    | 3 ---
 src/cvnn/layer/reduce.rs | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cvnn/layer/mod.rs b/src/cvnn/layer/mod.rs
index a56368a..da31de0 100644
--- a/src/cvnn/layer/mod.rs
+++ b/src/cvnn/layer/mod.rs
@@ -27,9 +27,6 @@ pub enum CLayer<T> {
   Flatten(Flatten)
 }
 
-unsafe impl<T: Send> Send for CLayer<T> {}
-unsafe impl<T: Sync> Sync for CLayer<T> {}
-
 impl<T: Complex + BasicOperations<T>> CLayer<T> {
   /// Method that checks if the layer was already initialized.
   /// 
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index dc4e4db..3f8af90 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -5,7 +5,7 @@ use super::{CLayer, ComplexDerivatives};
 pub struct Reduce<T> {
   input_features_len: usize,
   block_size: [usize; 2],
-  block_func: Box<dyn Fn(&[T]) -> T>,
+  block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>,
   interp_kernel: Matrix<T>
 }
 
@@ -61,7 +61,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
   pub fn init(
     input_features_len: usize, 
     block_size: [usize; 2], 
-    block_func: Box<dyn Fn(&[T]) -> T>, 
+    block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>, 
     interp_kernel: Matrix<T>
   ) -> Reduce<T> {
     Reduce { input_features_len, block_size, block_func, interp_kernel }
-- 
2.43.0


From ed1eaa4568de418127e16bbaf03b9ec90742b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:23 +0000
Subject: [PATCH 19/22] fix: pooling and flatten layers refuse features they
 were not built for

The number of features and, for the flatten layer, their size were never
compared with the declared input, so such inputs became predictions.
---
 src/cvnn/layer/flatten.rs | 4 ++++
 src/cvnn/layer/reduce.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cvnn/layer/flatten.rs b/src/cvnn/layer/flatten.rs
index bf25368..720319f 100644
--- a/src/cvnn/layer/flatten.rs
+++ b/src/cvnn/layer/flatten.rs
@@ -55,6 +55,10 @@ impl Flatten {
   pub fn foward<T: Clone>(&self, input_type: &IOType<T>) -> Result<IOType<T>, LayerForwardError> {
     match input_type {
       IOType::Matrix(features) => {
+        let (input_shape, ni) = self.input_size;
+        if features.len() != ni { return Err(LayerForwardError::InvalidInput) }
+        if features.iter().any(|feature| { feature.get_shape() != input_shape.as_slice() }) { return Err(LayerForwardError::InvalidInput) }
+
         let flatten_features = features
           .into_iter()
           .flat_map(|feature| { feature.get_body().to_vec() })
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index 3f8af90..819f3d0 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -75,6 +75,10 @@ impl<T: BasicOperations<T>> Reduce<T> {
   pub fn foward(&self, input_type: &IOType<T>) -> Result<IOType<T>, LayerForwardError> {
     match input_type {
       IOType::Matrix(features) => {
+        if features.len() != self.input_features_len { return Err(LayerForwardError::InvalidInput) }
+        /* all of the features should have the same shape */
+        if features.iter().any(|feature| { feature.get_shape() != features[0].get_shape() }) { return Err(LayerForwardError::InvalidInput) }
+
         let mut new_features = Vec::with_capacity(features.len());
         for feature in features.into_iter() {
           let new_feature = feature.block_reduce(
-- 
2.43.0


From b64fd04fe35a8293147f30fb7024a296b3a40510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:57 +0000
Subject: [PATCH 20/22] fix: exporting a dataset accepts points without inputs

A point with an empty input vector made the export panic after the file
had already been truncated. Such a point is now written as a line with
its targets only.
---
 src/dataset/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 5c2c69b..5a9f318 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -31,12 +31,16 @@ impl<T: Display + Copy> Dataset<T, T> {
 
     for (input, target) in inputs_iter.zip(targets_iter) {
       let mut input_iter = input.as_slice().into_iter();
-      write!(file, "{}", input_iter.next().unwrap())?;
+      let mut target_iter = target.as_slice().into_iter();
+      /* a point without inputs starts with its targets */
+      if let Some(elm) = input_iter.next().or_else(|| { target_iter.next() }) {
+        write!(file, "{}", elm)?;
+      }
       for elm_input in input_iter {
         string_row_input = format!(",{}", elm_input);
         write!(file, "{}", string_row_input)?;
       }
-      for elm_input in target.as_slice().into_iter() {
+      for elm_input in target_iter {
         string_row_target = format!(",{}", elm_input);
         write!(file, "{}", string_row_target)?;
       }
-- 
2.43.0


From 95bb07c461254cb5f775f265578b6439fed1c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:21 +0000
Subject: [PATCH 21/22] fix: upsampling refuses an empty block

---
 src/math/matrix/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index bf917ee..adab70a 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -582,6 +582,10 @@ impl<T: BasicOperations<T>> Matrix<T> {
     let matrix_shape = self.get_shape();
     let mut matrix_rows = self.rows_as_iter();
 
+    if block_size[0] == 0 || block_size[1] == 0 {
+      return Err(OperationError::InconsistentShape)
+    }
+
     let n_rows = matrix_shape[0];
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
-- 
2.43.0


From 00f8abaf5e93068483b777915aa74fb30a3db095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:22 +0000
Subject: [PATCH 22/22] fix: convolutional layers refuse empty kernels

---
 src/cvnn/layer/conv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index f3ca4c8..3097a0a 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -74,6 +74,8 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
 
     match input_shape {
       IOShape::Matrix(input_features_len) => {
+        if kernel_size[0] == 0 || kernel_size[1] == 0 { return Err(LayerInitError::InvalidInputShape) }
+
         let mut kernels = Vec::new();
         let mut biases = Vec::new();
 
-- 
2.43.0

