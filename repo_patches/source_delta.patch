From 2e5a7c22d3bc1cba1c7c86b1dfa00d1f4388201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 001/165] fix: KDTree.within/within_count return their result
 when r is an array of length 1

---
 python/polars_ds/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..ba4742a 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From a7a618f62949a3425b18e20c166895387a00fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 002/165] fix: a row with a null feature is not a neighbor
 under the inf distance

---
 src/utils/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..2c2db8c 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,16 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    // Float::max ignores NaN. A NaN coordinate must give a NaN distance,
+                    // as it does for the other metrics.
+                    let d = (x - y).abs();
+                    if d > acc || d.is_nan() {
+                        d
+                    } else {
+                        acc
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From 2e1b75eae0a30a60a1c1d58934e8bb95d2726d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 003/165] fix: within_dist_from(dist='l2') compares the l2
 distance, not its square, with r

---
 python/polars_ds/exprs/expr_knn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..510b260 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -365,10 +365,10 @@ def within_dist_from(
             <= r
         )
     elif dist in ("l2", "sql2"):
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
-            <= r
+        sq_dist = pl.sum_horizontal(
+            (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
         )
+        return (sq_dist.sqrt() if dist == "l2" else sq_dist) <= r
     elif dist == "inf":
         return (
             pl.max_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-- 
2.43.0


From 0b519b66d13024866e2731c98fbe49acd15f1106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 004/165] fix: knn and radius queries do not panic when no row
 is eligible

---
 src/num_ext/knn.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..7412ae1 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -2,7 +2,7 @@
 /// other features/entropies that require KNN to be efficiently computed.
 use crate::{
     arkadia::{
-        utils::{slice_to_empty_leaves, slice_to_leaves},
+        utils::{slice_to_empty_leaves, slice_to_leaves, suggest_capacity},
         KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT,
     },
     utils::{list_u32_output, series_to_row_major_slice, split_offsets, DIST},
@@ -82,6 +82,19 @@ pub fn row_major_slice_to_leaves_filtered<'a, T: Float + 'static, A: Copy>(
         .collect::<Vec<_>>()
 }
 
+/// Builds the tree. If there is no row to index, the tree is empty and no query finds a neighbor.
+fn tree_from_leaves<'a, A: Copy>(
+    leaves: &'a mut [Leaf<'a, f64, A>],
+    dim: usize,
+    d: DIST<f64>,
+) -> KDT<'a, f64, A> {
+    if leaves.is_empty() {
+        KDT::new_empty(dim, suggest_capacity(dim), d)
+    } else {
+        KDT::from_leaves_unchecked(leaves, d)
+    }
+}
+
 /// KNN Regression
 /// Always do k + 1 because this operation is in-dataframe, and this means
 /// that the point itself is always a neighbor to itself.
@@ -112,7 +125,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(tree_from_leaves(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -228,7 +241,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -309,7 +322,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +487,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
@@ -572,7 +585,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = tree_from_leaves(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -677,7 +690,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -688,7 +701,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = tree_from_leaves(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From c09995ed5cc3fc5be945f59786ff2b747e50f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 005/165] fix: asking an unfitted linear model with a bias
 whether it is fit does not panic

---
 src/linalg/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..8e49f0f 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
@@ -166,10 +166,10 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn predict(&self, X: MatRef<T>) -> Result<Mat<T>, LinalgErrors> {
-        if X.ncols() != self.coefficients().nrows() {
-            Err(LinalgErrors::DimensionMismatch)
-        } else if !self.is_fit() {
+        if !self.is_fit() {
             Err(LinalgErrors::MatNotLearnedYet)
+        } else if X.ncols() != self.coefficients().nrows() {
+            Err(LinalgErrors::DimensionMismatch)
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-- 
2.43.0


From 19750cf7e3f957c998fa7ddf403a8a90b4a83cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 006/165] fix: LR.bias() and OnlineLR.bias() return the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From c5bc5c2278ee2c691959db47fffd661aa5ad1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 007/165] fix: OnlineLR.from_coeffs_bias_inverse accepts the
 inverse of a model with a bias

---
 src/linalg/lr_online_solvers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..1d7d095 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        let has_bias = bias.abs() > T::epsilon();
+        let n = coeffs.len() + has_bias as usize;
+        if n != inv.ncols() || n != inv.nrows() {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From 2cc3e609ab0ea6ba7e9dd083d1cdfdb741a807cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 008/165] fix: lin_reg_w_rcond applies the cut off to the
 singular values of X, not to their squares

---
 src/linalg/lr_solvers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..1aa163d 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -216,8 +216,13 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
+        // The threshold applies to the singular values of X, s contains their squares
         for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if v >= threshold { v.recip() } else { T::zero() };
+            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold {
+                v.recip()
+            } else {
+                T::zero()
+            };
         }
     }
 
-- 
2.43.0


From 94f7f5fc216cd6c75cec68989fe5fe9f73fafc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 009/165] fix: recursive_lin_reg predicts each row with its own
 features when there are nulls

---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..47c6b78 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -914,7 +914,8 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // The i-th coefficients are fitted on the first n + i non-null rows
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..66bb872 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -862,7 +862,8 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // The i-th coefficients are fitted on the first n + i non-null rows
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From f78be91fcd55b0b8507c03239bd9ddb59c43885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 010/165] fix: lin_reg_w_rcond drops singular values below the
 accuracy of its own decomposition

---
 src/linalg/lr_solvers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 1aa163d..fc0d142 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -216,9 +216,14 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     // Safe, because i <= n
     let mut s_inv = Mat::<T>::zeros(n, n);
     unsafe {
-        // The threshold applies to the singular values of X, s contains their squares
+        // The threshold applies to the singular values of X, s contains their squares, which are
+        // only accurate up to epsilon * (the biggest square).
+        let noise = T::epsilon()
+            * T::from(x.nrows().max(x.ncols())).unwrap()
+            * max_singular_value
+            * max_singular_value;
         for (i, v) in s.iter().copied().enumerate() {
-            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold {
+            *s_inv.get_mut_unchecked(i, i) = if singular_values[i] >= threshold && v > noise {
                 v.recip()
             } else {
                 T::zero()
-- 
2.43.0


From a0790df65695019353e4cba2b2dabbeb433c12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 011/165] fix: rolling_lin_reg adds the next row before it
 removes the oldest one

---
 src/linalg/lr_online_solvers.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 1d7d095..3b3c0e9 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -209,13 +209,14 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add before removing. If n = # of columns, removing first would make XtX singular.
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
-- 
2.43.0


From 920bea11db1f3ed8da6b54608cb264e99a61ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 012/165] fix: rolling_lin_reg refits when a window has enough
 valid rows again

---
 src/linalg/lr_online_solvers.rs | 58 ++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 3b3c0e9..f772ebb 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -242,7 +242,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
 
     // Initialize the problem.
-    let mut non_null_cnt_in_window = 0;
+    let mut non_null_cnt_in_window: usize = 0;
     let mut left = 0;
     let mut right = n;
     let mut x_slice: Vec<T> = Vec::with_capacity(n * ncols);
@@ -251,9 +251,8 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    while right <= xn {
-        // Somewhat redundant here.
-        non_null_cnt_in_window = 0;
+    // Fits online_lr on the non-null rows in left..right. Returns the number of non-null rows.
+    let mut fit_window = |online_lr: &mut OnlineLR<T>, left: usize, right: usize| -> usize {
         x_slice.clear();
         y_slice.clear();
         for i in left..right {
@@ -261,17 +260,21 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             let y_i = y.get(i, ..);
 
             if !(x_i.iter().any(|x| is_nan(x)) || y_i.iter().any(|y| is_nan(y))) {
-                non_null_cnt_in_window += 1;
                 x_slice.extend(x_i.iter());
                 y_slice.extend(y_i.iter());
             }
         }
-        if non_null_cnt_in_window >= m {
-            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-            // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
+        let cnt = y_slice.len();
+        if cnt >= m {
+            let x0 = MatRef::from_row_major_slice(&x_slice, cnt, ncols);
+            let y0 = MatRef::from_column_major_slice(&y_slice, cnt, 1);
             online_lr.fit_unchecked(x0, y0);
+        }
+        cnt
+    };
+    while right <= xn {
+        non_null_cnt_in_window = fit_window(&mut online_lr, left, right);
+        if non_null_cnt_in_window >= m {
             coefficients.push(online_lr.fitted_values().to_owned());
             break;
         } else {
@@ -285,27 +288,36 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         return coefficients;
     }
     // right < xn, the problem must have been initialized (inv and weights are defined.)
+    // If the window had too few rows, XtX was singular and its inverse can't be updated anymore.
+    let mut should_refit = non_null_cnt_in_window < ncols;
     for j in right..xn {
         let remove_x = x.get(j - n..j - n + 1, ..);
         let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
-        }
+        let removes = !(has_nan(remove_x) | has_nan(remove_y));
+        let adds = !(has_nan(next_x) | has_nan(next_y));
+        non_null_cnt_in_window += adds as usize;
+        non_null_cnt_in_window -= removes as usize;
 
-        if non_null_cnt_in_window >= m {
-            coefficients.push(online_lr.fitted_values().to_owned());
-        } else {
+        if non_null_cnt_in_window < m {
+            should_refit = true;
             coefficients.push(Mat::with_capacity(0, 0));
+            continue;
+        }
+        if should_refit || non_null_cnt_in_window < ncols {
+            fit_window(&mut online_lr, j - n + 1, j + 1);
+            should_refit = non_null_cnt_in_window < ncols;
+        } else {
+            // Add before removing. If the window has ncols rows, removing first would make XtX singular.
+            if adds {
+                online_lr.update_unchecked(next_x, next_y, T::one());
+            }
+            if removes {
+                online_lr.update_unchecked(remove_x, remove_y, T::one().neg());
+            }
         }
+        coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
 }
-- 
2.43.0


From bc341f268b82f1b63250bc3645ac554e18cd8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 013/165] fix: the R2 and adjusted R2 of regression reports are
 those of the fitted rows

---
 src/num_ext/linear_regression.rs     | 39 +++++++++++++++++-----------
 src/num_ext/linear_regression_f32.rs | 18 +++----------
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 47c6b78..6e8f081 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -10,10 +10,12 @@ use crate::utils::{to_frame, NullPolicy};
 use core::f64;
 use faer::{
     linalg::solvers::{DenseSolveCore, Solve},
-    Col,
+    Col, ColRef,
 };
+use faer_traits::RealField;
 use itertools::Itertools;
 use ndarray::{s, Array2};
+use num::Float;
 use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -130,6 +132,25 @@ impl Into<PlSmallStr> for StandardError {
     }
 }
 
+/// R2 and adjusted R2 on the rows that are used in the fit. ncols is the number of coefficients,
+/// with the bias included.
+pub(crate) fn r2_and_adj_r2<T: RealField + Float>(
+    y: ColRef<T>,
+    res: ColRef<T>,
+    ncols: usize,
+    has_bias: bool,
+) -> (T, T) {
+    let n = T::from(y.nrows()).unwrap();
+    let mean = y.sum() / n;
+    let tss = y
+        .iter()
+        .fold(T::zero(), |acc, v| acc + (*v - mean) * (*v - mean));
+    let ratio = res.squared_norm_l2() / tss;
+    let n_features = T::from(ncols - has_bias as usize).unwrap();
+    let adj_r2 = T::one() - ratio * (n - T::one()) / (n - n_features - T::one());
+    (T::one() - ratio, adj_r2)
+}
+
 // -----------------------------------------------------------------------------------------------------
 
 /// Returns a Array2 ready for linear regression, and a mask, where true means the row doesn't contain null
@@ -580,9 +601,6 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
     // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -615,10 +633,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
-            let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let (r2, adj_r2) = r2_and_adj_r2(y.col(0), res.col(0), ncols, has_bias);
 
             // std err
             let std_err = match se_type {
@@ -740,9 +755,6 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
@@ -784,10 +796,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
-            let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let (r2, adj_r2) = r2_and_adj_r2(y.col(0), res.col(0), ncols, has_bias);
 
             // std err
             let std_err = (0..ncols)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 66bb872..13cb83b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -1,4 +1,4 @@
-use super::linear_regression::{LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError};
+use super::linear_regression::{r2_and_adj_r2, LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError};
 /// A copy of linear_regression, but with f32.
 /// Unfortunately, it is not so easily to write generic functions. If I do so,
 /// there would be too many functions that have purpose that is not obvious by first sight.
@@ -529,9 +529,6 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
     // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -564,10 +561,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             let res = y - x * &coeffs;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
-            let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let (r2, adj_r2) = r2_and_adj_r2(y.col(0), res.col(0), ncols, has_bias);
 
             // std err
             let std_err = match se_type {
@@ -688,9 +682,6 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
     let weights = weights.cont_slice().unwrap();
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
@@ -732,10 +723,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
             // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
-            let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let (r2, adj_r2) = r2_and_adj_r2(y.col(0), res.col(0), ncols, has_bias);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From 28298c78aad2eda35a41abf64de077bfe98290b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 014/165] fix: the schema of rolling_lin_reg and
 recursive_lin_reg names the field pred as the output does

---
 src/num_ext/linear_regression.rs     | 2 +-
 src/num_ext/linear_regression_f32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 6e8f081..5529f96 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -77,7 +77,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 13cb83b..385500e 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -50,7 +50,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From 98a94f517d3e9c7963e91173cd8535cf886b3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 015/165] fix: the schema of lin_reg_report names the standard
 error column as the output does

---
 src/num_ext/linear_regression.rs     | 12 ++++++++++--
 src/num_ext/linear_regression_f32.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 5529f96..36580ab 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -55,9 +55,17 @@ pub(crate) struct SWWLstsqKwargs {
 }
 
 fn report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE)
+}
+
+fn report_output_w_std_err(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err))
+}
+
+fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(se_type.into(), DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -594,7 +602,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output_w_std_err)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 385500e..89d5f37 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -28,9 +28,17 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
 fn report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE)
+}
+
+fn report_output_w_std_err(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err))
+}
+
+fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(se_type.into(), DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -522,7 +530,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output_w_std_err)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
-- 
2.43.0


From 01212f0e67cfd9f65611869955b47a551f352110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 016/165] fix: the schema of multi-target lin_reg is the struct
 it returns

---
 src/num_ext/linear_regression.rs     | 33 +++++++++++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 33 +++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 36580ab..8e8c02a 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -100,6 +100,32 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float64)),
+            )
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float64),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float64),
+            ]
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -373,9 +399,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -423,8 +447,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 89d5f37..7eba664 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -73,6 +73,32 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float32)),
+            )
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .flat_map(|f| {
+            [
+                Field::new(format!("{}_pred", f.name()).into(), DataType::Float32),
+                Field::new(format!("{}_resid", f.name()).into(), DataType::Float32),
+            ]
+        })
+        .collect::<Vec<_>>();
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -294,9 +320,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -348,8 +372,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From 3e0615bfb828be9a0809c8ba593394fce5f4fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 017/165] fix: rolling_lin_reg and recursive_lin_reg do not
 regularize the bias

---
 src/linalg/lr_online_solvers.rs      | 16 +++++++++++++---
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index f772ebb..1eeb181 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -68,6 +68,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         }
     }
 
+    /// Fits on data whose last column is already the constant 1 if x_has_bias. The bias is not
+    /// regularized.
+    fn fit_with_bias_in_x(&mut self, x: MatRef<T>, y: MatRef<T>, x_has_bias: bool) {
+        (self.inv, self.coefficients) = faer_qr_lstsq_with_inv(x, y, self.lambda, x_has_bias);
+    }
+
     pub fn update_unchecked(&mut self, new_x: MatRef<T>, new_y: MatRef<T>, c: T) {
         if self.has_bias() {
             let ones = Mat::full(new_x.nrows(), 1, T::one());
@@ -160,6 +166,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -173,7 +180,8 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    // safe because things are checked in plugin / python functions.
+    online_lr.fit_with_bias_in_x(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -192,6 +200,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -205,7 +214,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    online_lr.fit_with_bias_in_x(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -232,6 +241,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -268,7 +278,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
         if cnt >= m {
             let x0 = MatRef::from_row_major_slice(&x_slice, cnt, ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, cnt, 1);
-            online_lr.fit_unchecked(x0, y0);
+            online_lr.fit_with_bias_in_x(x0, y0, has_bias);
         }
         cnt
     };
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e8c02a..f4d2b3f 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -920,7 +920,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -1020,9 +1020,9 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7eba664..b4bd5c7 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -847,7 +847,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -947,9 +947,9 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32, has_bias)
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From cb604d6d286bdf035d487c92f1ee2e25abc1aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 018/165] fix: coordinate descent does not stop while the bias
 is still changing

---
 src/linalg/lr_solvers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index fc0d142..85281a8 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -367,6 +367,8 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            // The bias must have converged too, the other coordinates depend on it.
+            max_change = (ss - *beta.get(n1, 0)).abs().max(max_change);
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
         }
         converge = max_change < tol;
-- 
2.43.0


From 7389f8b112456ac671fe6d31660e137a6f79a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 019/165] fix: the tie correction of mann_whitney_u counts the
 ties of the largest value

---
 src/stats/mann_whitney_u.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..781ea64 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // The last group of ties
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
@@ -52,7 +53,8 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        // All values are the same
+        1.
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From 3b6d1e844f6f69c080818a08bb30abdb5ee682fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 020/165] fix: mann_whitney_u returns a scalar

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..87a81c4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 2f096541d17cd8e3a402b676bde3a8a313134e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 021/165] fix: the kurtosis test of normal_test keeps the sign
 of its cube root

---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..6650c5c 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
+        let term2 = ((1. - 2. / a) / denom).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 626815027e3d3003be5ca458813567c80939ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 022/165] fix: weighted_hmean uses the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 87a81c4..08bd334 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -732,7 +732,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(pl.lit(1.0, dtype=pl.Float32) / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From bac156c63232801da02e8eac97ed617382d22970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 023/165] fix: weighted_corr divides by the spread of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 08bd334..907db6c 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -876,7 +876,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From 13b8baf659d22ed2ea54931b64c7bb81ef962815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 024/165] fix: cosine_sim divides by the product of the two
 norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 907db6c..c46ce64 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -894,7 +894,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 2a57471ac19c3819face08b2bdfe6e6f6a68a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 025/165] fix: gmean and weighted_gmean call log, as Expr has
 no ln

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c46ce64..74e78e3 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -748,7 +748,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -768,9 +768,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From 7c2da42e036fe46f01145d97d9424ddfea87a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 026/165] fix: random_binomial passes n with the type the
 plugin reads

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 74e78e3..1fd88f6 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -636,7 +636,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From d8ba6aee22ba4afb301eb3f209d136e7150f0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 027/165] fix: the schema of random_str is String

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From 5b6e1ae53ed3c1a580b19ca5125b3618ccb79649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 028/165] fix: random, random_normal and jitter accept whole
 numbers given as int

---
 python/polars_ds/exprs/stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 1fd88f6..63b0134 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -416,7 +416,7 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     seed
         A random seed
     """
-    if isinstance(std, float):
+    if isinstance(std, (int, float)):
         if std < 0:
             raise ValueError("Standard deviation must be positive.")
         elif std == 0:
@@ -505,8 +505,8 @@ def random(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    lo = pl.lit(lower, pl.Float64) if isinstance(lower, float) else lower
-    up = pl.lit(upper, pl.Float64) if isinstance(upper, float) else upper
+    lo = pl.lit(lower, pl.Float64) if isinstance(lower, (int, float)) else lower
+    up = pl.lit(upper, pl.Float64) if isinstance(upper, (int, float)) else upper
     len_ = pl.lit(length, pl.UInt32) if isinstance(length, int) else length
     return pl_plugin(
         symbol="pl_random",
@@ -694,8 +694,8 @@ def random_normal(
         symbol="pl_rand_normal",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(mean, pl.Float64) if isinstance(mean, float) else mean,
-            pl.lit(std, pl.Float64) if isinstance(std, float) else std,
+            pl.lit(mean, pl.Float64) if isinstance(mean, (int, float)) else mean,
+            pl.lit(std, pl.Float64) if isinstance(std, (int, float)) else std,
             pl.lit(seed, pl.UInt64),
         ],
         is_elementwise=True,
-- 
2.43.0


From 44add681584b58441be88bf3953d7367d3c36ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 029/165] fix: random_cols uses its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..3560529 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,7 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    n = random.Random(seed).randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From 652b3d09174301cf08d1c54d1e1618c6b018bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 030/165] fix: split_by_ratio returns an empty split when the
 ratio leaves it no row

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 3560529..d33c2e0 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -233,10 +233,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
-- 
2.43.0


From 1f40294f92e02c84488205009444bc9496e25ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 031/165] fix: split_by_ratio accepts ratios whose floating
 point sum is not exactly 1

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index d33c2e0..cf95cfa 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -241,7 +241,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
-- 
2.43.0


From 482f5e9c8f0a813db8d022bf7b384b668c93dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 032/165] fix: split_by_ratio does not lose rows when the sizes
 are rounded down

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index cf95cfa..2fe8311 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -255,8 +255,9 @@ def split_by_ratio(
             n = len(df_eager)
             start = 0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            for i, v in enumerate(split_ratio):
+                # Whatever is lost by rounding down goes to the last split
+                length = int(n * v) if i < len(split_ratio) - 1 else n - start
                 dfs.append(
                     df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
                 )
-- 
2.43.0


From 1586c6057fa50f49f9468b0bcbfcd49b74183f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 033/165] fix: downsample keeps the rows where the condition is
 null

---
 python/polars_ds/sample_and_split/sample_and_split.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 2fe8311..b96d0ca 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,9 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    # A null condition is not true
+    filled = ((c.fill_null(False), r) for c, r in conditions)
+    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in filled)
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 0bb10342bc15b31e7b1fbb00f281d11456416542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 034/165] fix: random_int accepts expressions as its bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 63b0134..70243db 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -557,7 +557,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From 3e937c61d33192f845c26ec8f99f050a493cb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 035/165] fix: confusion matrix ratios were computed with
 integer division

---
 src/num_ext/tp_fp.rs | 63 ++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..2a8b2e9 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -323,48 +323,62 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
 
     let df = DataFrame::new(vec![tn, fp, fn_, tp])?;
 
+    // Ratios must not be computed with integer division. Dividing by 0 gives NaN.
+    fn div(a: Expr, b: Expr) -> Expr {
+        when(b.clone().eq(lit(0.)))
+            .then(lit(f64::NAN))
+            .otherwise(a / b)
+    }
+
     let result = df
         .lazy()
+        .with_columns([col("*").cast(DataType::Float64)])
         .with_columns([
             (col("tp") + col("fn")).alias("p"),
             (col("fp") + col("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
-            (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            div(col("tp"), col("p")).alias("tpr"),
+            div(col("fp"), col("n")).alias("fpr"),
+            div(col("tp"), col("tp") + col("fp")).alias("precision"),
+            div(col("fn"), col("fn") + col("tn")).alias("false_omission_rate"),
+            div(col("p"), col("p") + col("n")).alias("prevalence"),
+            div(col("tp"), col("tp") + col("fn") + col("fp")).alias("threat_score"),
         ])
         .with_columns([
-            (lit(1) - col("tpr")).alias("fnr"),
-            (lit(1) - col("fpr")).alias("tnr"),
-            (lit(1) - col("false_omission_rate")).alias("npv"),
-            (lit(1) - col("precision")).alias("fdr"),
+            (lit(1.) - col("tpr")).alias("fnr"),
+            (lit(1.) - col("fpr")).alias("tnr"),
+            (lit(1.) - col("false_omission_rate")).alias("npv"),
+            (lit(1.) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
-            (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
+            div(col("tpr"), col("fpr")).alias("plr"),
+            div(col("fnr"), col("tnr")).alias("nlr"),
+            (col("tpr") + col("tnr") - lit(1.)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
-            (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
-                .alias("prevalence_threshold"),
-            ((col("tpr") + col("tnr")) / lit(2)).alias("balanced_accuracy"),
-            ((lit(2) * col("precision") * col("tpr")) / (col("precision") + col("tpr")))
-                .alias("f1"),
+            div(
+                (col("tpr") * col("fpr")).sqrt() - col("fpr"),
+                col("tpr") - col("fpr"),
+            )
+            .alias("prevalence_threshold"),
+            ((col("tpr") + col("tnr")) / lit(2.)).alias("balanced_accuracy"),
+            div(
+                lit(2.) * col("precision") * col("tpr"),
+                col("precision") + col("tpr"),
+            )
+            .alias("f1"),
             ((col("precision") * col("tpr")).sqrt()).alias("folkes_mallows_index"),
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            div(col("tp") + col("tn"), col("p") + col("n")).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([div(col("plr"), col("nlr")).alias("dor")])
         .select(&[
-            col("tp"),
-            col("tn"),
-            col("fp"),
-            col("fn"),
+            col("tp").cast(DataType::UInt32),
+            col("tn").cast(DataType::UInt32),
+            col("fp").cast(DataType::UInt32),
+            col("fn").cast(DataType::UInt32),
             col("tpr"),
             col("tnr"),
             col("fpr"),
@@ -387,7 +401,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From b7ef51aa54d1e06c5755d21279ee16ab7773c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 036/165] fix: confusion matrix and mcc counted rows with null
 label or prediction

---
 src/num_ext/tp_fp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 2a8b2e9..57f0f95 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -185,7 +185,8 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     // At Python side, actual and pred columns were turned into boolean first. So
     // no invalid indices will happen.
     let mut output = [0u32; 4];
-    for i in combined_series.into_no_null_iter() {
+    // Rows with a null label or prediction are not counted
+    for i in combined_series.iter().flatten() {
         let j = i % 4; // to make this safe
         output[j as usize] += 1;
     }
-- 
2.43.0


From 15ff0bd42f80f907031c89d9f031700131571016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 037/165] fix: mcc overflowed on large frames

---
 src/num_ext/tp_fp.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 57f0f95..1d07212 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -199,17 +199,15 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let combined_series = combined_series.u32()?;
     let cm = binary_confusion_matrix(combined_series);
 
-    let n00 = cm[0];
-    let n01 = cm[1];
-    let n10 = cm[2];
-    let n11 = cm[3];
+    // The products overflow u32
+    let [n00, n01, n10, n11] = cm.map(|c| c as f64);
 
-    let n1_ = (n11 + n10) as f64;
-    let n_1 = (n11 + n01) as f64;
-    let n0_ = (n01 + n00) as f64;
-    let n_0 = (n10 + n00) as f64;
+    let n1_ = n11 + n10;
+    let n_1 = n11 + n01;
+    let n0_ = n01 + n00;
+    let n_0 = n10 + n00;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 * n00 - n10 * n01) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From dc31867b39b09809a14c4be160288273efa86038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 038/165] fix: ROC AUC and average precision ignored the last
 part of the curve

---
 src/num_ext/tp_fp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 1d07212..17713b4 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -87,6 +87,18 @@ fn tp_fp_frame(
     }
 }
 
+/// Area under the ROC curve. The curve, as given by the thresholds in increasing order, ends
+/// at the point tpr = fpr = 0 above the highest threshold, which is not a row of the frame.
+fn roc_auc(tpr: &[f64], fpr: &[f64]) -> f64 {
+    let last = tpr.len() - 1;
+    let area = if last == 0 {
+        0.
+    } else {
+        -super::trapz::trapz(tpr, fpr)
+    };
+    area + 0.5 * tpr[last] * fpr[last]
+}
+
 #[polars_expr(output_type_func=combo_output)]
 fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
@@ -126,7 +138,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?; // Zero copy
     let x = x.cont_slice()?; // Zero copy
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_auc(y, x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -135,6 +147,8 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
             .zip(y.iter().skip(1))
             .zip(precision)
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
+    // The curve ends at recall = 0, which is not a row of the frame
+    let ap = ap + y[y.len() - 1] * precision[y.len() - 1];
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
@@ -236,7 +250,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?;
     let x = x.cont_slice()?;
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_auc(y, x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From 8cc1049ba2ee375fa3b68ba71b6cb28b29195e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 039/165] fix: lazy schema of binary metrics named
 average_precision differently

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 17713b4..f120b8a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,7 +9,7 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
+    let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From e722a88473e059ed2d9f91f67e153935597b19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 040/165] fix: binary metrics panicked when the threshold is
 above all predictions

---
 src/num_ext/tp_fp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index f120b8a..d51c3b4 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -152,8 +152,11 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
-    let recall = y[index];
-    let precision = precision[index];
+    // When the threshold is above all predictions, nothing is predicted positive
+    let (recall, precision) = match (y.get(index), precision.get(index)) {
+        (Some(r), Some(p)) => (*r, *p),
+        _ => (0., f64::NAN),
+    };
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From 59d5549fa64dfcfb2fc45cc0d3d304b26a04239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 041/165] fix: binary metrics without positives were not a
 struct

---
 src/num_ext/tp_fp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d51c3b4..b1d6909 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -110,7 +110,20 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nan = |name: &str| Series::from_vec(name.into(), vec![f64::NAN]);
+        let out = StructChunked::from_series(
+            "metrics".into(),
+            1,
+            [
+                &nan("precision"),
+                &nan("recall"),
+                &nan("f"),
+                &nan("average_precision"),
+                &nan("roc_auc"),
+            ]
+            .into_iter(),
+        )?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
-- 
2.43.0


From 44b7bcb5abcfeaa289fbd9134efc183c057ffdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 042/165] fix: tpr_fpr and binary metrics did not follow their
 schema for non-f64 predictions or without positives

---
 src/num_ext/tp_fp.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index b1d6909..f2cdc6d 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -103,7 +103,7 @@ fn roc_auc(tpr: &[f64], fpr: &[f64]) -> f64 {
 fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
     let actual = &inputs[0];
-    let predicted = &inputs[1];
+    let predicted = &inputs[1].cast(&DataType::Float64)?;
     // Threshold for precision and recall
     let threshold = inputs[2].f64()?;
     let threshold = threshold.get(0).unwrap_or(0.5);
@@ -187,26 +187,16 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
     let actual = &inputs[0];
-    let predicted = &inputs[1];
+    let predicted = &inputs[1].cast(&DataType::Float64)?;
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
-    if positive_cnt == 0 {
-        let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
-        let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
-        let ca = StructChunked::from_columns(
-            "tpr_fpr".into(),
-            1,
-            &[tpr.into_column(), fpr.into_column()],
-        )?;
-        Ok(ca.into_series())
-    } else {
-        let frame = tp_fp_frame(predicted, actual, positive_cnt, true)?
-            .select([col("threshold"), col("tpr"), col("fpr")])
-            .collect()?;
+    // Without positives, the TPR is 0 / 0 = NaN
+    let frame = tp_fp_frame(predicted, actual, positive_cnt, true)?
+        .select([col("threshold"), col("tpr"), col("fpr")])
+        .collect()?;
 
-        let ca = frame.into_struct("tpr_fpr".into());
-        Ok(ca.into_series())
-    }
+    let ca = frame.into_struct("tpr_fpr".into());
+    Ok(ca.into_series())
 }
 
 fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
-- 
2.43.0


From d86041de123b1abc0de1639edb7e22967e0ac49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 043/165] fix: categorical cross entropy rejected array columns

---
 python/polars_ds/exprs/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..57fa098 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -577,11 +577,11 @@ def query_cat_cross_entropy(
         to be a column of lists/arrs with only one 1 and 0s otherwise.
     """
     a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    p = str_to_expr(pred).cast(pl.List(pl.Float64))
     if dense:
         y_prob = p.list.get(a)
     else:
-        y_prob = p.list.get(a.list.arg_max())
+        y_prob = p.list.get(a.cast(pl.List(pl.Float64)).list.arg_max())
     if normalize:
         return -y_prob.log().sum() / a.count()
     return -y_prob.log().sum()
-- 
2.43.0


From 71f50b0a79e9a94d175b245aa14d6d10564c7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 044/165] fix: calculate_ndcg only worked for a group column
 named example_id

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 57fa098..7a93f83 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on =group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From ee6083ad43a7131aca584b94e0123d47a51e7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 045/165] fix: normalised losses divided by the number of
 actuals including rows without prediction

---
 python/polars_ds/exprs/metrics.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 7a93f83..63d2b40 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -106,7 +106,7 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     a, p = str_to_expr(actual), str_to_expr(pred)
     if normalize:
-        return (p - a).cosh().log().sum() / a.count()
+        return (p - a).cosh().log().mean()
     return (p - a).cosh().log().sum()
 
 
@@ -124,8 +124,10 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     a, p = str_to_expr(actual), str_to_expr(pred)
     temp = (a - p).abs()
     return (
-        pl.when(temp <= delta).then(0.5 * temp.pow(2)).otherwise(delta * (temp - 0.5 * delta)).sum()
-        / a.count()
+        pl.when(temp <= delta)
+        .then(0.5 * temp.pow(2))
+        .otherwise(delta * (temp - 0.5 * delta))
+        .mean()
     )
 
 
@@ -146,7 +148,7 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     p = str_to_expr(pred)
     diff = a - p
     if normalize:
-        return diff.dot(diff) / a.count()
+        return diff.dot(diff) / diff.count()
     return diff.dot(diff)
 
 
@@ -166,7 +168,7 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     a = str_to_expr(actual)
     p = str_to_expr(pred)
     if normalize:
-        return (a - p).abs().sum() / a.count()
+        return (a - p).abs().mean()
     return (a - p).abs().sum()
 
 
@@ -260,7 +262,7 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     p = str_to_expr(pred)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
-    return (numerator / denominator).sum() / a.count()
+    return (numerator / denominator).mean()
 
 
 def query_mase(
@@ -338,7 +340,7 @@ def query_msle(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = Tru
     diff = a.log1p() - p.log1p()
     out = diff.dot(diff)
     if normalize:
-        return out / a.count()
+        return out / diff.count()
     return out
 
 
-- 
2.43.0


From a4cab87a624305f5c20a2b300fa96cc9e7b33f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 046/165] fix: r2 and adjusted r2 used different rows for the
 two sums of squares when there are nulls

---
 python/polars_ds/exprs/metrics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 63d2b40..ce79d2a 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -71,6 +71,7 @@ def query_r2(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     p = str_to_expr(pred)
     diff = a - p
     ss_res = diff.dot(diff)
+    a = pl.when(diff.is_not_null()).then(a)  # Both sums are over the same rows
     diff2 = a - a.mean()
     ss_tot = diff2.dot(diff2)
     return 1.0 - ss_res / ss_tot
@@ -93,10 +94,12 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     pred_expr = str_to_expr(pred)
     diff = actual_expr - pred_expr
     ss_res = diff.dot(diff)
+    # Both sums are over the same rows
+    actual_expr = pl.when(diff.is_not_null()).then(actual_expr)
     diff2 = actual_expr - actual_expr.mean()
     ss_tot = diff2.dot(diff2)
-    df_res = actual_expr.len() - p
-    df_tot = actual_expr.len() - 1
+    df_res = actual_expr.count() - p
+    df_tot = actual_expr.count() - 1
     return 1.0 - (ss_res / df_res) / (ss_tot / df_tot)
 
 
-- 
2.43.0


From abded86ad341e88c1e4b90c5f57546450a82ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 047/165] fix: psi panicked on new values above a repeated
 baseline maximum

---
 src/num_ext/psi.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..0915d0b 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -105,13 +105,17 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
-    let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
-    let binding = cnt.rechunk();
-    let ref_cnt = binding.cont_slice().unwrap();
+    let mut ref_brk: Vec<f64> = brk.iter().flatten().collect();
+    let mut ref_cnt: Vec<u32> = cnt.iter().flatten().collect();
+    // When the maximum of the baseline is itself a breakpoint, the last bin (.., inf] has no
+    // baseline data and is not among the breaks
+    if ref_brk.last() != Some(&f64::INFINITY) {
+        ref_brk.push(f64::INFINITY);
+        ref_cnt.push(0);
+    }
 
-    let new_cnt = psi_with_bps_helper(data_new, ref_brk);
-    let psi_report = psi_frame(ref_brk, "<=", ref_cnt, &new_cnt)?.collect()?;
+    let new_cnt = psi_with_bps_helper(data_new, &ref_brk);
+    let psi_report = psi_frame(&ref_brk, "<=", &ref_cnt, &new_cnt)?.collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
 }
-- 
2.43.0


From 098ae9e7cd40533627ee7827886b02848648e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 048/165] fix: psi_discrete treated the null category of both
 columns as two categories

---
 src/num_ext/psi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 0915d0b..cbb98d7 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -138,7 +138,10 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            JoinArgs {
+                join_nulls: true, // null is a category
+                ..JoinArgs::new(JoinType::Full)
+            },
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From 1a5980d132c9d8093fdfe81ea40bf2f0a391677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 049/165] fix: schema of the psi_discrete report did not match
 the report

---
 src/num_ext/psi.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index cbb98d7..ad2df23 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -120,8 +120,19 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(psi_report.into_struct("".into()).into_series())
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    let v: Vec<Field> = vec![
+        Field::new("baseline_category".into(), fields[2].dtype().clone()),
+        Field::new("actual_category".into(), fields[0].dtype().clone()),
+        Field::new("baseline_pct".into(), DataType::Float64),
+        Field::new("actual_pct".into(), DataType::Float64),
+        Field::new("psi_bin".into(), DataType::Float64),
+    ];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From b79c6855557e4e7bc7a7603e5db6f9680ef07d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 050/165] fix: psi_w_breakpoints panicked on non-f64 data and
 rejected integer breakpoints

---
 python/polars_ds/exprs/num.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..8f071a3 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -584,10 +584,14 @@ def psi_w_breakpoints(
     if len(breakpoints) == 0:
         raise ValueError("Breakpoints is empty.")
 
-    bp = breakpoints + [float("inf")]
+    bp = list(breakpoints) + [float("inf")]
     return pl_plugin(
         symbol="pl_psi_w_bps",
-        args=[x.rechunk(), y.rechunk(), pl.Series(values=bp)],
+        args=[
+            x.cast(pl.Float64).rechunk(),
+            y.cast(pl.Float64).rechunk(),
+            pl.Series(values=bp, dtype=pl.Float64, strict=False),
+        ],
         changes_length=True,
     ).alias("psi_report")
 
-- 
2.43.0


From 633acc72550664a7c14d48472c99141111b83589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 051/165] fix: woe and info_value failed on null or non-finite
 values

---
 python/polars_ds/exprs/num.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 8f071a3..9df4029 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -620,9 +620,10 @@ def woe(x: str | pl.Expr, target: str | pl.expr | Iterable[float], n_bins: int =
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     return pl_plugin(symbol="pl_woe_discrete", args=[brk, t], changes_length=True)
 
@@ -690,9 +691,10 @@ def info_value(
     if isinstance(target, (str, pl.Expr)):
         t = str_to_expr(target)
     else:
-        t = pl.Series(values=target)
+        t = pl.lit(pl.Series(values=target))
     xx = str_to_expr(x)
     valid = xx.filter(xx.is_finite())
+    t = t.filter(xx.is_finite())
     brk = valid.qcut(n_bins, left_closed=False, allow_duplicates=True).cast(pl.String)
     out = pl_plugin(symbol="pl_iv", args=[brk, t], changes_length=True)
     return out.struct.field("iv").sum() if return_sum else out
-- 
2.43.0


From a521c2e196f17cc39857ce61271a65e765c86d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 052/165] Revert "fix: the kurtosis test of normal_test keeps
 the sign of its cube root"

This reverts commit 2f096541d17cd8e3a402b676bde3a8a313134e0f.
---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index 6650c5c..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom).cbrt();
+        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From d8c92dfc4f0fd03075e8fbc57a7533924f24add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 053/165] fix: psi_discrete paired categories with counts of
 other categories at random

---
 python/polars_ds/exprs/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 9df4029..901b4e2 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -514,7 +514,8 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        # Sorted, because the two fields are evaluated separately and must be in the same order
+        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -525,7 +526,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From 1a4d8f66bc76212ce3445fd079f4e4c8e1419346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 054/165] fix: schema of str_fuzz said UInt32 while the result
 is Float64

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..965e2e6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 8d7654832d70355a4512c18707a4d5da5bcf0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 055/165] fix: str_lcs_seq(return_sim=True), the default, named
 a function that does not exist

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From 162f199a0be710672d320379ba4539628e7bfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 056/165] fix: similar_to_vocab with metric jw passed an
 argument str_jw does not take

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From 2aafe203e2045654871f746a6c5a27b49c303877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 057/165] fix: string similarities panicked when the single
 string to compare with is null

---
 src/str_ext/fuzz.rs          |  4 +++-
 src/str_ext/hamming.rs       | 12 +++++++++---
 src/str_ext/jaro.rs          |  8 ++++++--
 src/str_ext/lcs_seq.rs       |  8 ++++++--
 src/str_ext/levenshtein.rs   | 20 +++++++++++++++-----
 src/str_ext/osa.rs           |  8 ++++++--
 src/str_ext/overlap.rs       |  4 +++-
 src/str_ext/sorensen_dice.rs |  4 +++-
 src/str_ext/str_jaccard.rs   |  4 +++-
 src/str_ext/tversky.rs       |  4 +++-
 10 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 965e2e6..6ade224 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,9 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..e4009e8 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,9 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +121,9 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +180,9 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..13cc718 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,9 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +57,9 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..e8498e9 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,9 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +45,9 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..486902d 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,9 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +74,9 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +139,9 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +161,9 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +188,9 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..dce9bdc 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,9 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +45,9 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..58a0820 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,9 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..bb75451 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,9 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..50f2272 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,9 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..79feff4 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,9 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From 1bb5708d1b7c3ca4083430afa14bdd662f34b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 058/165] fix: set similarities with one empty string were NaN
 instead of 0

---
 src/str_ext/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/str_ext/mod.rs b/src/str_ext/mod.rs
index c7b2380..c0bda52 100644
--- a/src/str_ext/mod.rs
+++ b/src/str_ext/mod.rs
@@ -27,20 +27,18 @@ pub fn str_set_sim_helper(w1: &str, w2: &str, ngram: usize) -> (usize, usize, us
     let w1_len = w1.len();
     let w2_len = w2.len();
 
-    // as long as intersection size is 0, output will be correct
-    if (w1_len == 0) || (w2_len == 0) {
-        return (0, 0, 0);
-    }
-
-    // Both are nonempty
     // Another version that has slices of size <= n?
-    let s1: HashSet<&[u8]> = if w1_len < ngram {
+    let s1: HashSet<&[u8]> = if w1_len == 0 {
+        HashSet::new()
+    } else if w1_len < ngram {
         HashSet::from_iter([w1.as_bytes()])
     } else {
         HashSet::from_iter(w1.as_bytes().windows(ngram))
     };
 
-    let s2: HashSet<&[u8]> = if w2_len < ngram {
+    let s2: HashSet<&[u8]> = if w2_len == 0 {
+        HashSet::new()
+    } else if w2_len < ngram {
         HashSet::from_iter([w2.as_bytes()])
     } else {
         HashSet::from_iter(w2.as_bytes().windows(ngram))
-- 
2.43.0


From f0639fc4e143214ae5b14c4f92c3eef2b972d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 059/165] fix: str_nearest considered the values behind null
 entries

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From 6cbeae2a86cff6c63780feed606b36a2808195b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 060/165] fix: str_fuzz against a single string computed
 another similarity than against a column

---
 src/str_ext/fuzz.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 6ade224..f218336 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -23,21 +23,22 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
         let Some(r) = ca2.get(0) else {
             return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64));
         };
-        let batched = RatioBatchComparator::new(r.chars());
+        // (fuzz::RatioBatchComparator of rapidfuzz 0.5 scores by LCS, not by Indel)
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.normalized_similarity(s.chars()))
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From e009bc875f234be789c74ef6f7c09c59bf0d3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 061/165] fix: str_tokenize(stem=True) kept stopwords as empty
 strings and repeated stems

---
 python/polars_ds/exprs/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 6ac3745..fc69e70 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -270,7 +270,9 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        # stopwords (and numbers) are stemmed to the empty string
+        stemmed = str_snowball(pl.element(), True)
+        return out.list.eval(stemmed.filter(stemmed != "").unique(maintain_order=True))
     return out
 
 
-- 
2.43.0


From 7efa140aca2b520c68a9926cbb930b06c98552f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 062/165] fix: str_snowball took the words inf, infinity and
 nan for numbers

---
 src/str_ext/snowball_stem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/str_ext/snowball_stem.rs b/src/str_ext/snowball_stem.rs
index 07fed5f..b05da1b 100644
--- a/src/str_ext/snowball_stem.rs
+++ b/src/str_ext/snowball_stem.rs
@@ -5,7 +5,9 @@ use pyo3_polars::derive::polars_expr;
 use std::fmt::Write;
 
 fn snowball(s: &str, no_stopwords: bool, output: &mut String) {
-    if s.parse::<f64>().is_ok() || (no_stopwords && EN_STOPWORDS.binary_search(&s).is_ok()) {
+    // f64 also parses the words inf, infinity and nan
+    let is_number = s.parse::<f64>().is_ok() && s.bytes().any(|b| b.is_ascii_digit());
+    if is_number || (no_stopwords && EN_STOPWORDS.binary_search(&s).is_ok()) {
         write!(output, "{}", "").unwrap()
     } else {
         let mut env: SnowballEnv<'_> = SnowballEnv::create(s);
-- 
2.43.0


From 24cd3bba1a58ea64804f956692713908aafc845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 063/165] fix: lazy schema of expit, logit, gamma, exp2, fract,
 next_up and next_down on integers announced Float64 for a Float32 result

---
 src/num_ext/float_extras.rs | 16 ++++++++--------
 src/utils/mod.rs            |  8 ++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..586b847 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -2,7 +2,7 @@ use crate::stats_utils::gamma::digamma;
 /// Extra functions for floating points
 /// trunc, fract, exp2, logit, expit, gamma,
 /// The logit, expit and gamma functions are as defined in SciPy
-use crate::utils::{first_field_output, float_output};
+use crate::utils::{first_field_output, float_or_f32_output, float_output};
 use arity::binary_elementwise_values;
 use num::traits::Float;
 use polars::prelude::*;
@@ -64,7 +64,7 @@ fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float6
 //     ca.cast_and_apply_in_place(f64::signum)
 // }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_logit(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -91,7 +91,7 @@ fn pl_logit(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_expit(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -117,7 +117,7 @@ fn pl_expit(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_gamma(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -143,7 +143,7 @@ fn pl_gamma(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_exp2(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
@@ -195,7 +195,7 @@ fn pl_trunc(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -216,7 +216,7 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_next_up(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
@@ -243,7 +243,7 @@ fn pl_next_up(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type_func=float_output)]
+#[polars_expr(output_type_func=float_or_f32_output)]
 fn pl_next_down(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 2c2db8c..fefbaf0 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -205,6 +205,14 @@ pub fn float_output(fields: &[Field]) -> PolarsResult<Field> {
     FieldsMapper::new(fields).map_to_float_dtype()
 }
 
+/// The output of functions that keep floats as they are and treat integers as f32
+pub fn float_or_f32_output(fields: &[Field]) -> PolarsResult<Field> {
+    FieldsMapper::new(fields).map_dtype(|dtype| match dtype {
+        DataType::Float64 => DataType::Float64,
+        _ => DataType::Float32,
+    })
+}
+
 // -------------------------------------------------------------------------------
 // Common, Structures
 // -------------------------------------------------------------------------------
-- 
2.43.0


From f35060add66692f5f21580f64557f12591f82443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 064/165] fix: fract of an integer column turned nulls into 0

---
 src/num_ext/float_extras.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index 586b847..a3de253 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -200,7 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        let zeros = Float32Chunked::from_vec(s.name().clone(), vec![0f32; s.len()]);
+        Ok(zeros.set(&s.is_null(), None)?.into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From b76294227f956120137c6c9353e315de5671ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 065/165] fix: xlogy with a scalar on one side panicked or gave
 NaN

---
 src/num_ext/float_extras.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index a3de253..6ffaecd 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -277,8 +277,24 @@ fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     let s2 = &inputs[1];
     let ca1 = s1.f64().unwrap();
     let ca2 = s2.f64().unwrap();
-    let ca: Float64Chunked = binary_elementwise_values(ca1, ca2, xlogy::<f64>);
-    Ok(ca.into_series())
+    // binary_elementwise_values does not broadcast
+    let ca: Float64Chunked = match (ca1.len(), ca2.len()) {
+        (n, m) if n == m => binary_elementwise_values(ca1, ca2, xlogy::<f64>),
+        (n, 1) => match ca2.get(0) {
+            Some(y) => ca1.apply_values(|x| xlogy(x, y)),
+            None => Float64Chunked::full_null(ca1.name().clone(), n),
+        },
+        (1, m) => match ca1.get(0) {
+            Some(x) => ca2.apply_values(|y| xlogy(x, y)),
+            None => Float64Chunked::full_null(ca1.name().clone(), m),
+        },
+        _ => {
+            return Err(PolarsError::ShapeMismatch(
+                "Inputs must have the same length or one of them must be a scalar.".into(),
+            ))
+        }
+    };
+    Ok(ca.with_name(s1.name().clone()).into_series())
 }
 
 #[polars_expr(output_type=Float64)]
-- 
2.43.0


From 5f60bd757c2c25661a0d2be29c52c6808bb417e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 066/165] fix: gcd and lcm panicked on a null scalar

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From 4f106e1df1b70f8caa16f68348ae351be6b85956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 067/165] fix: haversine panicked on a null scalar

---
 src/num_ext/haversine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..2c10ed0 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,10 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
+            (Some(lat), Some(long)) => (lat, long),
+            _ => return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len())),
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From 4d8e0fd0dca368abecc38cf1b10b9085443735b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 068/165] fix: haversine was NaN between antipodes when
 rounding pushed the half chord above 1

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index fefbaf0..a463d53 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -261,7 +261,7 @@ pub fn haversine_elementwise<T: Float>(start_lat: T, start_long: T, end_lat: T,
 
     let a = ((d_lat / two).sin()) * ((d_lat / two).sin())
         + ((d_lon / two).sin()) * ((d_lon / two).sin()) * (lat1.cos()) * (lat2.cos());
-    let c = two * ((a.sqrt()).atan2((one - a).sqrt()));
+    let c = two * ((a.sqrt()).atan2((one - a).max(T::zero()).sqrt()));
     r_in_km * c
 }
 
-- 
2.43.0


From cdd428fb5f33e95794025100e1230660f05ed2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 069/165] fix: linear detrend panicked on a column with nulls

---
 python/polars_ds/exprs/num.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 901b4e2..85e4c64 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -933,10 +933,10 @@ def detrend(x: str | pl.Expr, method: DetrendMethod = "linear") -> pl.Expr:
     """
     ts = str_to_expr(x)
     if method == "linear":
-        N = ts.count()
-        x = pl.int_range(0, N, eager=False)
+        # Fit on the non-null points only
+        x = pl.when(ts.is_not_null()).then(pl.int_range(0, ts.len(), eager=False))
         coeff = pl.cov(ts, x) / x.var()
-        const = ts.mean() - coeff * (N - 1) / 2
+        const = ts.mean() - coeff * x.mean()
         return ts - x * coeff - const
     elif method == "mean":
         return ts - ts.mean()
-- 
2.43.0


From de26c0cd17b3720d1f1e666deaa8bb3bbee35222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 070/165] fix: singular_values, pca and principal_components
 panicked on features without distinct names, as in group_by

---
 src/utils/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index a463d53..a73668c 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -24,7 +24,7 @@ pub fn to_f64_matrix_without_nulls(
     inputs: &[Series],
     order: IndexOrder,
 ) -> PolarsResult<Array2<f64>> {
-    let df = DataFrame::from_iter(inputs.iter().map(|s| Column::Series(s.clone().into())));
+    let df = to_frame_renamed(inputs)?;
     let df = df.drop_nulls::<String>(None)?;
     df.to_ndarray::<Float64Type>(order)
 }
@@ -39,11 +39,23 @@ pub fn to_f64_matrix_fail_on_nulls(
             "Nulls are found in data and this method doesn't allow nulls.".into(),
         ))
     } else {
-        let df = DataFrame::new(inputs.iter().map(|s| s.clone().into_column()).collect())?;
+        let df = to_frame_renamed(inputs)?;
         df.to_ndarray::<Float64Type>(order)
     }
 }
 
+/// The inputs as a frame with generated column names. The names of the inputs need not be unique.
+#[inline(always)]
+fn to_frame_renamed(inputs: &[Series]) -> PolarsResult<DataFrame> {
+    DataFrame::new(
+        inputs
+            .iter()
+            .enumerate()
+            .map(|(i, s)| s.clone().with_name(i.to_string().into()).into_column())
+            .collect(),
+    )
+}
+
 #[inline(always)]
 pub fn to_frame(inputs: &[Series]) -> PolarsResult<DataFrame> {
     DataFrame::new(inputs.iter().map(|s| s.clone().into_column()).collect())
-- 
2.43.0


From 19a529f911759ed18f0468bf8c35e77b79c2cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 071/165] fix: pca and principal_components panicked with fewer
 rows than features

---
 src/num_ext/pca.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..f06cd3d 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -96,7 +96,7 @@ fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(n, dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -139,7 +139,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(n, dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -166,7 +166,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From fb5dcc7ba50012b9dd6f5d9fa5b9c4b5793bca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 072/165] fix: lazy schema of principal_components announced
 one component per input instead of k; NaNs for too few rows had length 1

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 27 +++++++++++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 85e4c64..54f2a61 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -352,13 +352,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index f06cd3d..8085e98 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+pub fn principal_components_output(
+    _: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,18 +87,20 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
     let columns = if mat.nrows() < k {
         (0..k)
-            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN]).into_column())
+            .map(|i| Series::from_vec(format!("pc{}", i + 1).into(), vec![f64::NAN; n]).into_column())
             .collect::<Vec<Column>>()
     } else {
         let (m, n) = mat.shape();
-- 
2.43.0


From 4aa0e4db0a0803496b81db27cc089c2c77812096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 073/165] fix: explained variance of singular_values divided by
 the number of features instead of samples; centring used rows that are
 dropped

---
 python/polars_ds/exprs/num.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 54f2a61..a19ebe6 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -291,14 +291,21 @@ def singular_values(
         If true, normalize output to between 0 and 1.
     """
     feats = [str_to_expr(f) for f in features]
+    # Rows with nulls are dropped
+    valid = pl.all_horizontal(f.is_not_null() for f in feats)
     if center:
-        actual_inputs = [f - f.mean() for f in feats]
+        actual_inputs = [f - f.filter(valid).mean() for f in feats]
     else:
         actual_inputs = feats
 
+    if as_explained_var:
+        # So that the squares are divided by n_samples - 1
+        denom = (valid.sum() - 1).cast(pl.Float64).sqrt()
+        actual_inputs = [f / denom for f in actual_inputs]
+
     out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        out = out.list.eval(pl.element().pow(2))
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From dc75d83397752551b4788293d094aa3fcbce3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 074/165] fix: pca with nulls centred with rows that are
 dropped

---
 python/polars_ds/exprs/num.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index a19ebe6..2ac224e 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -329,7 +329,9 @@ def pca(
     """
     feats = [str_to_expr(f) for f in features]
     if center:
-        actual_inputs = [f - f.mean() for f in feats]
+        # Rows with nulls are dropped
+        valid = pl.all_horizontal(f.is_not_null() for f in feats)
+        actual_inputs = [f - f.filter(valid).mean() for f in feats]
     else:
         actual_inputs = feats
 
-- 
2.43.0


From 759d46f1bd2dfc2e14e507b248e6ca3cd6d00b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 075/165] fix: integrate_trapz of a single point was not 0

---
 src/num_ext/trapz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..434fdba 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -7,7 +7,7 @@ use pyo3_polars::derive::polars_expr;
 pub fn trapz(y: &[f64], x: &[f64]) -> f64 {
     // x.len() == y.len() checked
     if x.len() == 1 && y.len() == 1 {
-        y[0] * x[0] * -0.5 // y[0] * (-x[0]) * 0.5
+        0. // No interval
     } else {
         let mut y_d = vec![0.; y.len() - 1];
         cfavml::add_vector(&y[1..], &y[..y.len() - 1], &mut y_d);
-- 
2.43.0


From 8ad6e259c43ed7ccfb45415676d89b60aa568ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 076/165] fix: integrate_trapz failed when x is not contiguous

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 2ac224e..0f079a2 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -762,7 +762,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
-- 
2.43.0


From 356f8d76c86e45bd789da62aa593cf0247b1e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 077/165] fix: convolve failed on a kernel expression that is
 not Float64

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 0f079a2..c784357 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -813,7 +813,7 @@ def convolve(
     xx = str_to_expr(x).fill_null(fill_value).cast(pl.Float64).rechunk()  # One cont slice
     f: pl.Expr | pl.Series
     if isinstance(kernel, pl.Expr):
-        f = kernel.filter(kernel.is_finite()).rechunk()  # One cont slice
+        f = kernel.filter(kernel.is_finite()).cast(pl.Float64).rechunk()  # One cont slice
     else:
         f = pl.Series(values=kernel, dtype=pl.Float64)
         f = f.filter(f.is_finite()).rechunk()  # One cont slice
-- 
2.43.0


From 959d4608ce264ad26c68902b4c3c14acc892a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 078/165] fix: singular_values as ratio or explained variance
 failed in group_by

---
 python/polars_ds/exprs/num.py | 18 ++++++------------
 src/num_ext/pca.rs            | 17 ++++++++++++++++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index c784357..22c1f4e 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -298,18 +298,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    if as_explained_var:
-        # So that the squares are divided by n_samples - 1
-        denom = (valid.sum() - 1).cast(pl.Float64).sqrt()
-        actual_inputs = [f / denom for f in actual_inputs]
-
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
-    if as_explained_var:
-        out = out.list.eval(pl.element().pow(2))
-    if as_ratio:
-        out = out.list.eval(pl.element() / pl.element().sum())
-
-    return out
+    return pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        kwargs={"as_explained_var": as_explained_var, "as_ratio": as_ratio},
+        returns_scalar=True,
+    )
 
 
 def pca(
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 8085e98..e6b9117 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -28,6 +28,12 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+#[derive(Deserialize, Debug)]
+pub(crate) struct SingularValuesKwargs {
+    pub(crate) as_explained_var: bool,
+    pub(crate) as_ratio: bool,
+}
+
 #[derive(Deserialize, Debug)]
 pub(crate) struct PrincipalComponentsKwargs {
     pub(crate) k: usize,
@@ -47,7 +53,7 @@ pub fn principal_components_output(
 }
 
 #[polars_expr(output_type_func=singular_values_output)]
-fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
+fn pl_singular_values(inputs: &[Series], kwargs: SingularValuesKwargs) -> PolarsResult<Series> {
     let mat = to_f64_matrix_without_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
 
@@ -79,6 +85,15 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     )
     .map_err(|_| PolarsError::ComputeError("SVD algorithm did not converge.".into()))?;
 
+    if kwargs.as_explained_var {
+        let denom = m as f64 - 1.;
+        s.iter_mut().for_each(|v| *v = *v * *v / denom);
+    }
+    if kwargs.as_ratio {
+        let total = s.iter().sum::<f64>();
+        s.iter_mut().for_each(|v| *v /= total);
+    }
+
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("singular_values".into(), 1, dim, DataType::Float64);
 
-- 
2.43.0


From 66c5c188fe663bbc9f1b9af6bf6b498d958b669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 079/165] fix: query_similar_count with sqzl2 failed in
 group_by and on Float32 columns

---
 python/polars_ds/exprs/ts_features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..bb99205 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -285,15 +285,15 @@ def query_similar_count(
             returns_scalar=True,
         )
     elif metric == "sqzl2":  # pl_subseq_sim_cnt_zl2
-        rolling_mean = t.rolling_mean(window_size=len(q)).slice(len(q) - 1, None)
+        tt = t.cast(pl.Float64)
+        rolling_mean = tt.rolling_mean(window_size=len(q)).slice(len(q) - 1, None)
         rolling_var = pl.max_horizontal(
-            t.rolling_var(window_size=len(q)).slice(len(q) - 1, None).fill_nan(1e-10),
+            tt.rolling_var(window_size=len(q)).slice(len(q) - 1, None).fill_nan(1e-10),
             pl.lit(1e-10, dtype=pl.Float64),
         )
-        qq = pl.lit(q)
         args = [
-            t.cast(pl.Float64).rechunk(),
-            ((qq - qq.mean()) / qq.std()).rechunk(),
+            tt.rechunk(),
+            ((q - q.mean()) / q.std()).rechunk(),
             rolling_mean.rechunk(),
             rolling_var.rechunk(),
         ]
-- 
2.43.0


From da485656e28738317ed0719a5b7248abd82dcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 080/165] fix: query_similar_count with sqzl2 and a query
 longer than the series panicked

---
 src/num_ext/subseq_sim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index e50eb2a..b2d8a0f 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -81,6 +81,12 @@ fn pl_subseq_sim_cnt_zl2(
     let rolling_var = inputs[3].f64()?;
     let rolling_var = rolling_var.cont_slice()?;
 
+    if query.len() > seq.len() {
+        return Err(PolarsError::ComputeError(
+            "Not enough data points for the query.".into(),
+        ));
+    }
+
     let threshold = kwargs.threshold;
     let par = kwargs.parallel && !context.parallel();
     let window_size = query.len();
-- 
2.43.0


From 808d0440184af31ea9092d79b495a5ac669ac2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 081/165] fix: query_first_digit_cnt counted the values behind
 null entries

---
 src/num_ext/benford.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..4b6ecd7 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,7 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    let s = inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 681702171896e1c523263be630fa716705f58c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 082/165] fix: query_permute_entropy with tau > 1 spaced the
 column vectors instead of their elements and counted incomplete ones

---
 python/polars_ds/exprs/ts_features.py | 31 +++++++++------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index bb99205..ae67af5 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -762,24 +762,13 @@ def query_permute_entropy(
         raise ValueError("Input `tau` has to be >= 1.")
 
     t = str_to_expr(ts)
-    if tau == 1:  # Fast track the most common use case
-        return (
-            pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
-            .head(t.len() - n_dims + 1)
-            .list.eval(pl.element().arg_sort())
-            .value_counts()  # groupby and count, but returns a struct
-            .struct.field("count")  # extract the field named "count"
-            .entropy(base=base, normalize=True)
-        )
-    else:
-        return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
-            .list.eval(pl.element().arg_sort())
-            .value_counts()
-            .struct.field("count")
-            .entropy(base=base, normalize=True)
-        )
+    # The number of complete column vectors
+    rows = (t.len().cast(pl.Int64) - (n_dims - 1) * tau).clip(lower_bound=0)
+    return (
+        pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+        .head(rows)
+        .list.eval(pl.element().arg_sort())
+        .value_counts()  # groupby and count, but returns a struct
+        .struct.field("count")  # extract the field named "count"
+        .entropy(base=base, normalize=True)
+    )
-- 
2.43.0


From 882fe0d1c397cd8bfa4e4a973d8b2953852b8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 083/165] fix: query_approx_entropy panicked on a single point

---
 src/num_ext/entrophies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index b0d10ac..416477a 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -27,7 +27,7 @@ fn pl_approximate_entropy(
     if radius.len() != 1 {
         return Err(PolarsError::ComputeError("Radius must be a scalar.".into()));
     }
-    let r = radius.get(0).unwrap();
+    let r = radius.get(0).unwrap_or(-1f64); // see return below
     let name = inputs[1].name();
     let ncols = inputs[1..].len();
     let data = series_to_row_major_slice::<Float64Type>(&inputs[1..])?;
-- 
2.43.0


From f304f8a92de09e0e88d9dd0aa8a65d82dcb4f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 084/165] fix: sample and approximate entropy failed on Float32
 columns

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index ae67af5..3c48319 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -547,7 +547,7 @@ def query_sample_entropy(
         raise ValueError("Input `m` must be > 1.")
 
     t = str_to_expr(ts)
-    r = ratio * t.std(ddof=0)
+    r = (ratio * t.std(ddof=0)).cast(pl.Float64)
     rows = t.len() - m + 1
 
     data = [r, t.slice(0, length=rows)]
@@ -608,7 +608,7 @@ def query_approx_entropy(
 
     t = str_to_expr(ts)
     if scale_by_std:
-        r: pl.Expr = filtering_level * t.std()
+        r: pl.Expr = (filtering_level * t.std()).cast(pl.Float64)
     else:
         r: pl.Expr = pl.lit(filtering_level, dtype=pl.Float64)
 
-- 
2.43.0


From 4bfd5a880d75f29c9cc6c3d3bf5977d842dce355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 085/165] fix: query_permute_entropy was wrong in group_by
 contexts

---
 python/polars_ds/exprs/ts_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 3c48319..99d1aba 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -763,10 +763,10 @@ def query_permute_entropy(
 
     t = str_to_expr(ts)
     # The number of complete column vectors
-    rows = (t.len().cast(pl.Int64) - (n_dims - 1) * tau).clip(lower_bound=0)
+    rows = t.len().cast(pl.Int64) - (n_dims - 1) * tau
     return (
         pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
-        .head(rows)
+        .filter(pl.int_range(t.len()) < rows)
         .list.eval(pl.element().arg_sort())
         .value_counts()  # groupby and count, but returns a struct
         .struct.field("count")  # extract the field named "count"
-- 
2.43.0


From e28e14aa022c53252d28d58d24453dd553a51c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 086/165] fix: jaccard_col counted the values behind null
 entries and miscounted nulls

---
 src/num_ext/jaccard.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..47a6e22 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,12 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // Null is one more element of a column's set if it is counted
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
-
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +218,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let intersection = intersection_size + (null1 & null2);
+    let union = len1 + null1 + len2 + null2 - intersection;
+    let out = intersection as f64 / union as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 8606b15d05c99b59288ae221ae59370e7bbdd165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 087/165] fix: jaccard_col truncated floats and lost strings
 and large unsigned values when compared with an integer column

---
 src/num_ext/jaccard.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index 47a6e22..ed299eb 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -100,11 +100,14 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
     // God, help me with this unholy mess,
-    let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
-        let ca1 = s1.cast(&DataType::Int64)?;
-        let ca1 = ca1.i64().unwrap();
-        let ca2 = s2.cast(&DataType::Int64)?;
-        let ca2 = ca2.i64().unwrap();
+    let (len1, len2, intersection_size) = if s1.dtype().is_integer()
+        && s2.dtype().is_integer()
+        && s1.dtype() != s2.dtype()
+    {
+        let ca1 = s1.cast(&DataType::Int128)?;
+        let ca1 = ca1.i128().unwrap();
+        let ca2 = s2.cast(&DataType::Int128)?;
+        let ca2 = ca2.i128().unwrap();
         let hs1 = ca1.into_no_null_iter().collect::<PlHashSet<_>>();
         let hs2 = ca2.into_no_null_iter().collect::<PlHashSet<_>>();
         (hs1.len(), hs2.len(), hs1.intersection(&hs2).count())
-- 
2.43.0


From dc7913a1ce89bfca9a69705bf1b245d801590b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 088/165] fix: jaccard_row panicked on 8 and 16-bit integers
 and did not broadcast a single list

---
 src/num_ext/jaccard.rs | 71 ++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index ed299eb..71fe96b 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -5,15 +5,15 @@ use ordered_float::OrderedFloat;
 use polars::prelude::*;
 use pyo3_polars::{
     derive::polars_expr,
-    export::polars_core::{
-        utils::arrow::{array::PrimitiveArray, types::NativeType},
-        with_match_physical_integer_type,
+    export::polars_core::utils::arrow::{
+        array::{PrimitiveArray, Utf8ViewArray},
+        types::NativeType,
     },
 };
 use DataType::*;
 
 #[inline]
-fn jaccard_str(c1: &StringChunked, c2: &StringChunked) -> f64 {
+fn jaccard_str(c1: &Utf8ViewArray, c2: &Utf8ViewArray) -> f64 {
     // Jaccard similarity for strings
     let hs1 = c1.into_iter().collect::<PlHashSet<_>>();
     let hs2 = c2.into_iter().collect::<PlHashSet<_>>();
@@ -36,21 +36,17 @@ fn jaccard_int<T: NativeType + Hash + Eq>(a: &PrimitiveArray<T>, b: &PrimitiveAr
 }
 
 #[inline]
-fn _list_jaccard(a: &ListChunked, b: &ListChunked) -> Float64Chunked {
+fn _list_jaccard<T: NativeType + Hash + Eq>(a: &ListChunked, b: &ListChunked) -> Float64Chunked {
     // Using this avoids casting
     // This is copied from
     // https://github.com/pola-rs/pyo3-polars/blob/main/example/derive_expression/expression_lib/src/distances.rs)
-    with_match_physical_integer_type!(a.inner_dtype(), |$T| {
-        polars::prelude::arity::binary_elementwise(a, b, |a, b| {
-            match (a, b) {
-                (Some(a), Some(b)) => {
-                    let a = a.as_any().downcast_ref::<PrimitiveArray<$T>>().unwrap();
-                    let b = b.as_any().downcast_ref::<PrimitiveArray<$T>>().unwrap();
-                    Some(jaccard_int(a, b))
-                },
-                _ => None
-            }
-        })
+    polars::prelude::arity::broadcast_binary_elementwise(a, b, |a, b| match (a, b) {
+        (Some(a), Some(b)) => {
+            let a = a.as_any().downcast_ref::<PrimitiveArray<T>>().unwrap();
+            let b = b.as_any().downcast_ref::<PrimitiveArray<T>>().unwrap();
+            Some(jaccard_int(a, b))
+        }
+        _ => None,
     })
 }
 
@@ -64,27 +60,34 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ComputeError: "Inner data types don't match."
     );
 
-    if s1.inner_dtype().is_integer() {
-        let out = _list_jaccard(s1, s2);
-        Ok(out.into_series())
-    } else if s1.inner_dtype() == &DataType::String {
-        Ok(s1
-            .into_iter()
-            .zip(s2.into_iter())
-            .map(|(c1, c2)| match (c1, c2) {
-                (Some(c1), Some(c2)) => {
-                    let c1 = c1.str().unwrap();
-                    let c2 = c2.str().unwrap();
-                    Some(jaccard_str(c1, c2))
+    let out = match s1.inner_dtype() {
+        Int8 => _list_jaccard::<i8>(s1, s2),
+        Int16 => _list_jaccard::<i16>(s1, s2),
+        Int32 => _list_jaccard::<i32>(s1, s2),
+        Int64 => _list_jaccard::<i64>(s1, s2),
+        Int128 => _list_jaccard::<i128>(s1, s2),
+        UInt8 => _list_jaccard::<u8>(s1, s2),
+        UInt16 => _list_jaccard::<u16>(s1, s2),
+        UInt32 => _list_jaccard::<u32>(s1, s2),
+        UInt64 => _list_jaccard::<u64>(s1, s2),
+        String => {
+            polars::prelude::arity::broadcast_binary_elementwise(s1, s2, |a, b| match (a, b) {
+                (Some(a), Some(b)) => {
+                    let a = a.as_any().downcast_ref::<Utf8ViewArray>().unwrap();
+                    let b = b.as_any().downcast_ref::<Utf8ViewArray>().unwrap();
+                    Some(jaccard_str(a, b))
                 }
                 _ => None,
             })
-            .collect())
-    } else {
-        Err(PolarsError::ComputeError(
-            "List Jaccard similarity currently only supports Str or Int inner data type.".into(),
-        ))
-    }
+        }
+        _ => {
+            return Err(PolarsError::ComputeError(
+                "List Jaccard similarity currently only supports Str or Int inner data type."
+                    .into(),
+            ))
+        }
+    };
+    Ok(out.into_series())
 }
 
 #[polars_expr(output_type=Float64)]
-- 
2.43.0


From f1058cf6d27a25b820f90a2c8e47add612e0a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 089/165] fix: target_encode failed on a Float32 target

---
 src/num_ext/target_encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index e7955b1..13955cb 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -52,8 +52,8 @@ fn get_target_encode_frame(
 fn pl_target_encode(inputs: &[Series], kwargs: TargetEncodeKwargs) -> PolarsResult<Series> {
     // Inputs[0] and inputs[1] are the string column and the target respectively
 
-    let target_mean = inputs[2].f64()?;
-    let target_mean = target_mean.get(0).unwrap();
+    let target_mean = inputs[2].cast(&DataType::Float64)?;
+    let target_mean = target_mean.f64()?.get(0).unwrap();
 
     let min_samples_leaf = kwargs.min_samples_leaf;
     let smoothing = kwargs.smoothing;
-- 
2.43.0


From 8c3b8eb297e8b8ac6a40f01d124a767e7ef07f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 090/165] fix: impute and conditional_impute failed with method
 mode

---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..7b1f98d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From 8a41ba872139ed2d7f9bbdeb85ca9162efcc97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 091/165] fix: Blueprint.drop and one_hot_encode failed on
 column selectors

---
 python/polars_ds/modeling/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..c31c9b3 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -630,7 +630,9 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        # Selectors are allowed besides names. An empty list drops nothing.
+        keep = pl.all() if isinstance(cols, (list, tuple)) and len(cols) == 0 else cs.exclude(cols)
+        self._steps.append(PipelineStep(keep, PLContext.SELECT))
         return self
 
     def rename(self, rename_dict: Dict[str, str]) -> Self:
-- 
2.43.0


From 11981888a128f771657fd82822a317085314e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 092/165] fix: Blueprint.one_hot_encode dropped the target or
 excluded columns it did not encode

---
 python/polars_ds/modeling/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index c31c9b3..800575e 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -685,7 +685,9 @@ class Blueprint:
             )
         )
         if drop_cols:
-            return self.drop(cols)
+            # Excluded columns, e.g. the target, are not encoded and must be kept
+            keep = cs.exclude(cols) | cs.by_name(*self.exclude, require_all=False)
+            self._steps.append(PipelineStep(keep, PLContext.SELECT))
         return self
 
     def rank_hot_encode(
-- 
2.43.0


From d1db51069e875b0b7a5101a22174d8e4b505807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 093/165] fix: Blueprint.rename dropped columns whose old name
 is also a new name

---
 python/polars_ds/modeling/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 800575e..89b7dea 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -644,7 +644,8 @@ class Blueprint:
         rename_dict
             The name mapping
         """
-        old = list(rename_dict.keys())
+        # A name that is also a new name, e.g. in a swap, is overwritten and must be kept
+        old = [k for k in rename_dict.keys() if k not in rename_dict.values()]
         self._steps.append(
             PipelineStep(
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
-- 
2.43.0


From 90bb09542418e326f708a5585242f9865a6ec81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 094/165] fix: a pipeline with lowercase or uppercase refused
 the columns it was fitted on under ensure_features_io

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 89b7dea..6c09ef8 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -238,6 +238,10 @@ class Pipeline:
         """
         if self.ensure_features_in:
             columns = df.lazy().collect_schema().names()
+            if self.lowercase:
+                columns = [c.lower() for c in columns]
+            elif self.uppercase:
+                columns = [c.upper() for c in columns]
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From fd052a92ad5fe662e83d69e7a9fec0db69236a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 095/165] fix: target_encode panicked on categorical columns

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 22c1f4e..1555ce0 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -1008,7 +1008,7 @@ def target_encode(
         t = pl.lit(pl.Series(values=target))
     return pl_plugin(
         symbol="pl_target_encode",
-        args=[str_to_expr(s), t, t.mean()],
+        args=[str_to_expr(s).cast(pl.String), t, t.mean()],
         kwargs={"min_samples_leaf": float(min_samples_leaf), "smoothing": smoothing},
         changes_length=True,
     )
-- 
2.43.0


From a1d6029e4142a7143d7a25c0489e1c6cff4f911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 096/165] fix: Blueprint.nan_to_null failed

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 6c09ef8..465c00d 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -437,7 +437,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From 57917fb52cc518e19ed5b43a0a863231c94cdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 097/165] fix: lazy schemas announced column names the results
 do not have

---
 src/num_ext/iterations.rs            |  2 +-
 src/num_ext/knn.rs                   |  4 ++--
 src/num_ext/linear_regression.rs     | 32 ++++++++++++++--------------
 src/num_ext/linear_regression_f32.rs | 32 ++++++++++++++--------------
 src/num_ext/pca.rs                   | 12 +++++------
 src/num_ext/psi.rs                   |  6 +++---
 src/num_ext/target_encode.rs         |  4 ++--
 src/num_ext/tp_fp.rs                 | 12 +++++------
 src/num_ext/woe_iv.rs                |  8 +++----
 src/stats/chi2.rs                    |  2 +-
 src/stats/mod.rs                     |  4 ++--
 src/utils/mod.rs                     | 16 +++++++-------
 12 files changed, 67 insertions(+), 67 deletions(-)

diff --git a/src/num_ext/iterations.rs b/src/num_ext/iterations.rs
index deaf944..4a2f518 100644
--- a/src/num_ext/iterations.rs
+++ b/src/num_ext/iterations.rs
@@ -10,7 +10,7 @@ pub(crate) struct CombinationKwargs {
 
 fn itertools_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(fields[0].dtype().clone())),
     ))
 }
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 7412ae1..a2881f9 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -19,11 +19,11 @@ use pyo3_polars::{
 };
 use serde::Deserialize;
 
-pub fn knn_full_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn knn_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let idx = Field::new("idx".into(), DataType::List(Box::new(DataType::UInt32)));
     let dist = Field::new("dist".into(), DataType::List(Box::new(DataType::Float64)));
     let v = vec![idx, dist];
-    Ok(Field::new("knn_dist".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize)]
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index f4d2b3f..074faef 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -54,15 +54,15 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
-    report_fields(StandardError::SE)
+fn report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::SE)
 }
 
-fn report_output_w_std_err(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
-    report_fields(StandardError::from(kwargs.std_err))
+fn report_output_w_std_err(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::from(kwargs.std_err))
 }
 
-fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
+fn report_fields(fields: &[Field], se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
     let stderr = Field::new(se_type.into(), DataType::Float64); // Std Err for this coefficient
@@ -73,31 +73,31 @@ fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float64); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float64); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
@@ -110,7 +110,7 @@ fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResul
             )
         })
         .collect::<Vec<_>>();
-    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
@@ -123,12 +123,12 @@ fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult
             ]
         })
         .collect::<Vec<_>>();
-    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index b4bd5c7..7bb9008 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,15 +27,15 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
-    report_fields(StandardError::SE)
+fn report_output(fields: &[Field]) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::SE)
 }
 
-fn report_output_w_std_err(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
-    report_fields(StandardError::from(kwargs.std_err))
+fn report_output_w_std_err(fields: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(fields, StandardError::from(kwargs.std_err))
 }
 
-fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
+fn report_fields(fields: &[Field], se_type: StandardError) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
     let stderr = Field::new(se_type.into(), DataType::Float32); // Std Err for this coefficient
@@ -46,31 +46,31 @@ fn report_fields(se_type: StandardError) -> PolarsResult<Field> {
     let r2 = Field::new("r2".into(), DataType::Float32); // Coefficient of determination
     let adj_r2 = Field::new("adj_r2".into(), DataType::Float32); // adjusted
     let v: Vec<Field> = vec![features, beta, stderr, t, p, ci_lower, ci_upper, r2, adj_r2];
-    Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
+fn pred_residue_output(fields: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
     let v = vec![pred, residue];
-    Ok(Field::new("pred".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_pred_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let singular_values = Field::new(
         "singular_values".into(),
         DataType::List(Box::new(DataType::Float32)),
     );
     let v: Vec<Field> = vec![coeffs, singular_values];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
@@ -83,7 +83,7 @@ fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResul
             )
         })
         .collect::<Vec<_>>();
-    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
@@ -96,12 +96,12 @@ fn multi_pred_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult
             ]
         })
         .collect::<Vec<_>>();
-    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
+fn coeff_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "coeffs".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float32)),
     ))
 }
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index e6b9117..ef0af26 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -9,21 +9,21 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
-pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn singular_values_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "singular_values".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn pca_output(fields: &[Field]) -> PolarsResult<Field> {
     let singular_value = Field::new("singular_value".into(), DataType::Float64);
     let weights = Field::new(
         "weight_vector".into(),
         DataType::List(Box::new(DataType::Float64)),
     );
     Ok(Field::new(
-        "pca".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![singular_value, weights]),
     ))
 }
@@ -40,14 +40,14 @@ pub(crate) struct PrincipalComponentsKwargs {
 }
 
 pub fn principal_components_output(
-    _: &[Field],
+    fields: &[Field],
     kwargs: PrincipalComponentsKwargs,
 ) -> PolarsResult<Field> {
     let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
-        "principal_components".into(),
+        fields[0].name().clone(),
         DataType::Struct(components),
     ))
 }
diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index ad2df23..7b89921 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -2,13 +2,13 @@ use ordered_float::OrderedFloat;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
+fn psi_report_output(fields: &[Field]) -> PolarsResult<Field> {
     let breakpoints = Field::new("<=".into(), DataType::Float64);
     let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
     let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
     let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
     let v: Vec<Field> = vec![breakpoints, baseline_pct, actual_pct, psi_bins];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Computes counts in each bucket given by the breakpoints in
@@ -128,7 +128,7 @@ fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
         Field::new("actual_pct".into(), DataType::Float64),
         Field::new("psi_bin".into(), DataType::Float64),
     ];
-    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Discrete PSI report
diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index 13955cb..7cec570 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -2,11 +2,11 @@ use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use serde::Deserialize;
 
-fn target_encode_output(_: &[Field]) -> PolarsResult<Field> {
+fn target_encode_output(fields: &[Field]) -> PolarsResult<Field> {
     let values = Field::new("value".into(), DataType::String);
     let to = Field::new("to".into(), DataType::Float64);
     let v: Vec<Field> = vec![values, to];
-    Ok(Field::new("target_encoded".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 #[derive(Deserialize, Debug)]
diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index f2cdc6d..32a67d2 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -4,22 +4,22 @@ use faer::reborrow::IntoConst;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn combo_output(_: &[Field]) -> PolarsResult<Field> {
+fn combo_output(fields: &[Field]) -> PolarsResult<Field> {
     let roc_auc = Field::new("roc_auc".into(), DataType::Float64);
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
     let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
+fn tpr_fpr_output(fields: &[Field]) -> PolarsResult<Field> {
     let threshold = Field::new("threshold".into(), DataType::Float64);
     let tpr = Field::new("tpr".into(), DataType::Float64);
     let fpr = Field::new("fpr".into(), DataType::Float64);
     let v: Vec<Field> = vec![threshold, tpr, fpr];
-    Ok(Field::new("tpr_fpr".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn tp_fp_frame(
@@ -261,7 +261,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 // bcm = binary confusion matrix
-fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
+fn bcm_output(fields: &[Field]) -> PolarsResult<Field> {
     let tp = Field::new("tp".into(), DataType::UInt32);
     let fp = Field::new("fp".into(), DataType::UInt32);
     let tn = Field::new("tn".into(), DataType::UInt32);
@@ -290,7 +290,7 @@ fn bcm_output(_: &[Field]) -> PolarsResult<Field> {
     let dor = Field::new("dor".into(), DataType::Float64);
 
     Ok(Field::new(
-        "confusion_matrix".into(),
+        fields[0].name().clone(),
         DataType::Struct(vec![
             tp,
             tn,
diff --git a/src/num_ext/woe_iv.rs b/src/num_ext/woe_iv.rs
index 743fd9f..3465af2 100644
--- a/src/num_ext/woe_iv.rs
+++ b/src/num_ext/woe_iv.rs
@@ -1,18 +1,18 @@
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn woe_output(_: &[Field]) -> PolarsResult<Field> {
+fn woe_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let woe: Field = Field::new("woe".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, woe];
-    Ok(Field::new("woe_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
-fn iv_output(_: &[Field]) -> PolarsResult<Field> {
+fn iv_output(fields: &[Field]) -> PolarsResult<Field> {
     let value = Field::new("value".into(), DataType::String);
     let iv: Field = Field::new("iv".into(), DataType::Float64);
     let v: Vec<Field> = vec![value, iv];
-    Ok(Field::new("iv_output".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 /// Get a lazyframe needed to compute Weight Of Evidence.
diff --git a/src/stats/chi2.rs b/src/stats/chi2.rs
index e82dffa..c5578dd 100644
--- a/src/stats/chi2.rs
+++ b/src/stats/chi2.rs
@@ -11,7 +11,7 @@ fn chi2_full_output(fields: &[Field]) -> PolarsResult<Field> {
     let f2 = fields[1].clone();
     let ef = Field::new("E[freq]".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p, dof, f1, f2, ef];
-    Ok(Field::new("chi2_full".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 fn _chi2_helper(inputs: &[Series]) -> PolarsResult<(LazyFrame, usize, usize)> {
diff --git a/src/stats/mod.rs b/src/stats/mod.rs
index 9acd652..0ab6073 100644
--- a/src/stats/mod.rs
+++ b/src/stats/mod.rs
@@ -10,11 +10,11 @@ mod xi_corr;
 
 use polars::prelude::*;
 
-pub fn simple_stats_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn simple_stats_output(fields: &[Field]) -> PolarsResult<Field> {
     let s = Field::new("statistic".into(), DataType::Float64);
     let p = Field::new("pvalue".into(), DataType::Float64);
     let v: Vec<Field> = vec![s, p];
-    Ok(Field::new("".into(), DataType::Struct(v)))
+    Ok(Field::new(fields[0].name().clone(), DataType::Struct(v)))
 }
 
 pub enum Alternative {
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index a73668c..2c509f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -185,30 +185,30 @@ pub fn first_field_output(fields: &[Field]) -> PolarsResult<Field> {
 //     ))
 // }
 
-pub fn list_u32_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_u32_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "nodes".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::UInt32)),
     ))
 }
 
-pub fn list_f64_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_f64_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "floats".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::Float64)),
     ))
 }
 
-pub fn complex_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn complex_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "complex".into(),
+        fields[0].name().clone(),
         DataType::Array(Box::new(DataType::Float64), 2),
     ))
 }
 
-pub fn list_str_output(_: &[Field]) -> PolarsResult<Field> {
+pub fn list_str_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
-        "list_str".into(),
+        fields[0].name().clone(),
         DataType::List(Box::new(DataType::String)),
     ))
 }
-- 
2.43.0


From 1772798fce2d2faa1de520ede1ec9bb1c809eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 098/165] fix: saved pipelines with impute, rank_hot_encode or
 polynomial_features could not be used again

---
 python/polars_ds/modeling/transforms.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 7b1f98d..3d4cac3 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import polars as pl
 import polars.selectors as cs
+from functools import reduce
+from operator import mul
 from typing import List, Dict
 
 # Internal dependencies
@@ -23,6 +25,14 @@ import polars_ds.exprs.num as pds_num
 import polars_ds.exprs.expr_linear as lr
 
 
+def _fill_null(col: str, value: pl.Expr) -> pl.Expr:
+    """
+    Same as pl.col(col).fill_null(value), except that Polars forgets to cast the operands of fill_null
+    to a common type once the expression has been serialized.
+    """
+    return pl.when(pl.col(col).is_null()).then(value).otherwise(pl.col(col)).alias(col)
+
+
 def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean") -> ExprTransform:
     """
     Impute null values in the given columns. This transform will collect if input is lazy.
@@ -39,13 +49,13 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
     """
     if method == "mean":
         temp = df.lazy().select(pl.col(cols).mean()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "median":
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     elif method == "mode":
         temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
-        return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
+        return [_fill_null(c, pl.lit(m)) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
 
@@ -152,7 +162,7 @@ def linear_impute(
     if add_bias:
         linear_eq.append(pl.lit(coeffs[-1], dtype=pl.Float64))
 
-    return [pl.col(target_name).fill_null(pl.sum_horizontal(linear_eq)).alias(target_name)]
+    return [_fill_null(target_name, pl.sum_horizontal(linear_eq))]
 
 
 def center(df: PolarsFrame, cols: List[str]) -> ExprTransform:
@@ -386,7 +396,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{col}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
@@ -612,7 +622,7 @@ def polynomial_features(
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        reduce(mul, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From 3566544a16955d5e9610fa9a88715e599a5e7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 099/165] fix: conditional_impute by mode failed on string
 columns

---
 python/polars_ds/modeling/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 3d4cac3..698e4fe 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -116,7 +116,8 @@ def conditional_impute(
             .row(0)
         )
         return [
-            pl.when(rules_dict[c]).then(m).otherwise(pl.col(c)).alias(c) for c, m in zip(cols, temp)
+            pl.when(rules_dict[c]).then(pl.lit(m)).otherwise(pl.col(c)).alias(c)
+            for c, m in zip(cols, temp)
         ]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
-- 
2.43.0


From dc25c69f3430c3bc8178f01b44eeb7b91a751146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 100/165] fix: haversine returned a column without a name
 inside over() although the schema announced one

---
 src/num_ext/haversine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 2c10ed0..0be3115 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -75,5 +75,5 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
         }
         _ => return Err(PolarsError::ComputeError("Data type not supported.".into())),
     };
-    Ok(out)
+    Ok(out.with_name(inputs[0].name().clone()))
 }
-- 
2.43.0


From b966cc5a6898925f8c2ff3a228d4d030a45a875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 101/165] fix: random functions announced the input's name but
 returned a column without a name in agg() and over()

---
 src/stats/sample.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index d3eacb0..243b6f7 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -24,7 +24,7 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     let high = inputs[2].i32()?;
     let mut high = high.get(0).unwrap();
     if low == high {
-        let out = Int32Chunked::from_vec("".into(), vec![low; n]);
+        let out = Int32Chunked::from_vec(inputs[0].name().clone(), vec![low; n]);
         return Ok(out.into_series());
     } else if high < low {
         std::mem::swap(&mut low, &mut high);
@@ -32,7 +32,7 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     let seed = inputs[3].u64()?;
     let dist = Uniform::new(low, high);
     let mut rng = rng_from_seed(seed.get(0));
-    let out = Int32Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(n));
+    let out = Int32Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(n));
     Ok(out.into_series())
 }
 
@@ -48,7 +48,7 @@ fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
     let mut rng = rng_from_seed(seed.get(0));
     let dist =
         Binomial::new(n.into(), p).map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
-    let out = UInt64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
+    let out = UInt64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
     Ok(out.into_series())
 }
 
@@ -63,12 +63,12 @@ fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
     let mut rng = rng_from_seed(seed.get(0));
     if lambda == 1.0 {
         let out =
-            Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(Exp1).take(len));
+            Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(Exp1).take(len));
         Ok(out.into_series())
     } else {
         let dist = Exp::new(lambda).map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
         let out =
-            Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
+            Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
         Ok(out.into_series())
     }
 }
@@ -84,7 +84,7 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
     let dist = Uniform::new(low, high);
-    let out = Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
+    let out = Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
     Ok(out.into_series())
 }
 
@@ -172,14 +172,14 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     let mut rng = rng_from_seed(seed.get(0));
     if mean == 0. && std_ == 1.0 {
         let out = Float64Chunked::from_iter_values(
-            "".into(),
+            inputs[0].name().clone(),
             (&mut rng).sample_iter(StandardNormal).take(len),
         );
         Ok(out.into_series())
     } else {
         let dist = Normal::new(mean, std_).unwrap();
         let out =
-            Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
+            Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
         Ok(out.into_series())
     }
 }
@@ -201,6 +201,6 @@ fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
         let length = rng.sample(dist);
         Alphanumeric.sample_string(&mut rng, length)
     });
-    let out = StringChunked::from_iter_values("".into(), sample);
+    let out = StringChunked::from_iter_values(inputs[0].name().clone(), sample);
     Ok(out.into_series())
 }
-- 
2.43.0


From a7881170c160b544ac55ffe0a1aa3ca62064c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 102/165] fix: chi2 with return_full failed with duplicate
 empty names inside group_by

---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 70243db..cd6e77d 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From e9f1588fb24cc19fb3638b3350e5dfc713aae739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 103/165] fix: simple_lin_reg without bias failed inside over()
 because implode is not allowed there

---
 python/polars_ds/exprs/expr_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..8f7b717 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -100,7 +100,7 @@ def simple_lin_reg(
         if return_pred:
             return pl.struct(pred=beta * xx, resid=yy - (beta * xx)).alias("lr_pred")
         else:
-            return beta.implode().alias("coeffs")
+            return pl.concat_list(beta).alias("coeffs")
 
 
 def lin_reg(
-- 
2.43.0


From 354a0e6b876e30a79ffbe8d5a911fb222d5923e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 104/165] fix: a linear model lost its feature names when
 refitted with, or set to, its own list of names

---
 python/polars_ds/linear_models.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..d2e1c7c 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -176,7 +176,6 @@ class LR:
         features
             List of strings.
         """
-        self.feature_names_in_.clear()
         self.feature_names_in_ = list(features)
         return self
 
@@ -260,7 +259,6 @@ class LR:
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
         self.feature_names_in_ = list(features)
         return self.fit(X, y)
 
@@ -395,7 +393,6 @@ class ElasticNet:
         features
             List of strings.
         """
-        self.feature_names_in_.clear()
         self.feature_names_in_ = list(features)
         return self
 
@@ -463,7 +460,6 @@ class ElasticNet:
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
         self.feature_names_in_ = list(features)
         return self.fit(X, y)
 
-- 
2.43.0


From 3547e75808b007aa5662314b9944c24af022a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 105/165] fix: DIA.corr failed on frames with Float32 columns

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..3eaa940 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -455,7 +455,7 @@ class DIA:
             self._frame.select(
                 # This calls corr from .stats
                 pl.lit(x).alias("column"),
-                *(corr(x, y, method=method).alias(y) for y in self.numerics),
+                *(corr(x, y, method=method).cast(pl.Float64).alias(y) for y in self.numerics),
             )
             for x in to_check
         ]
-- 
2.43.0


From 770fc3ac16e38e432a20e134e79fb54381543b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 106/165] fix: DIA.infer_prob only looked at the first row of
 list columns

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 3eaa940..e2a8bba 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From b7b4ed96dc882660c23e5eecb55129cbf1de0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 107/165] fix: DIA.infer_discrete left out boolean and
 categorical columns

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index e2a8bba..17de2d4 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -568,7 +568,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 26b9b2480613e4c46ed02a6d1ea0418bc237b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 108/165] fix: DIA.plot_feature_distr failed unless n_bins was
 given

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 17de2d4..7acc06d 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -821,7 +821,7 @@ class DIA:
     def plot_feature_distr(
         self,
         feature: str,
-        n_bins: int | None = None,
+        n_bins: int = 10,
         density: bool = False,
         show_bad_values: bool = True,
         min_: float | pl.Expr | None = None,
-- 
2.43.0


From f512dcb23745902cc1bbbcc64956aba3b273a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 109/165] fix: the lists DIA returns were cached and shared, so
 changing one changed later answers

---
 python/polars_ds/eda/diagnosis.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 7acc06d..52d2407 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -19,7 +19,6 @@ import graphviz
 import warnings
 
 from typing import Iterable, Dict
-from functools import lru_cache
 from itertools import combinations
 from great_tables import GT
 
@@ -519,7 +518,6 @@ class DIA:
 
         return [c for c, ok in zip(self.floats + self.list_floats, is_ok) if ok is True]
 
-    @lru_cache
     def infer_high_null(self, threshold: float = 0.75) -> List[str]:
         """
         Infers columns with more than threshold percentage nulls.
@@ -540,7 +538,6 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
     def infer_discrete(self, threshold: float = 0.1, max_val_cnt: int = 100) -> List[str]:
         """
         Infers discrete columns based on unique percentage and max_val_count.
@@ -570,7 +567,6 @@ class DIA:
 
         return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
-    @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
         """
         Infers whether the column is constant.
@@ -603,7 +599,6 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
     def infer_binary(self, include_null: bool = False) -> List[str]:
         """
         Infers whether the column is binary.
@@ -636,7 +631,6 @@ class DIA:
 
         return [c for c, ok in zip(self._frame.columns, is_ok) if ok is True]
 
-    @lru_cache
     def infer_k_distinct(self, k: int, include_null: bool = False) -> List[str]:
         """
         Infers whether the column has k distinct values.
-- 
2.43.0


From 747339584cfbb99eb432a7731af414ac8e0e83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 110/165] fix: the AUC shown by plot_roc_auc left out the area
 before the first point of the curve

---
 python/polars_ds/eda/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index e0c319f..cd5bb37 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -532,11 +532,12 @@ def plot_roc_auc(
         )
 
         text = p
+        curve = pl.concat([zero, tpr_fpr])
         if show_auc:
-            auc = tpr_fpr.select(integrate_trapz("tpr", "fpr")).item(0, 0)
+            auc = curve.select(integrate_trapz("tpr", "fpr")).item(0, 0)
             text += f" (AUC = {round(auc, n_decimals)})"
 
-        dfs.append(pl.concat([zero, tpr_fpr]).with_columns(name=pl.lit(text, dtype=pl.String)))
+        dfs.append(curve.with_columns(name=pl.lit(text, dtype=pl.String)))
 
     perfect_line = pl.int_range(1, 100, step=5, eager=True) / 100
     df_line = pl.DataFrame({"fpr": perfect_line, "tpr": perfect_line}).with_columns(
-- 
2.43.0


From 688dd8f6d07ed1782c053967b9270aa874131b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 111/165] fix: query_cond_entropy, and DIA.infer_dependency
 with it, aborted the process on categorical columns

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 99d1aba..1c6ddd9 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -510,7 +510,7 @@ def query_cond_entropy(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     """
     return pl_plugin(
         symbol="pl_conditional_entropy",
-        args=[str_to_expr(x), str_to_expr(y)],
+        args=[str_to_expr(x).to_physical(), str_to_expr(y).to_physical()],
         returns_scalar=True,
         pass_name_to_apply=True,
     )
-- 
2.43.0


From 8c3995883a62cd2fb13e2851ebb834071f0d8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 112/165] fix: compat calls gave wrong or empty answers for
 functions that need the number of rows

---
 python/polars_ds/compat/_compat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 26d0803..60e85a5 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -50,9 +50,16 @@ class _Compat():
                 n: _Compat._try_into_series(v, name = n)
                 for n, v in kwargs.items()
             }
+            # Some expressions ask for the number of rows (pl.len()), so they need a frame as long as the input
+            n_rows = next(
+                (np.shape(x)[0] for x in positionals if hasattr(x, "__array__") and np.ndim(x) > 0), None
+            )
+            context = (
+                pl.DataFrame() if n_rows is None else pl.select(pl.int_range(n_rows).alias("__index__"))
+            )
             # An eager df, drop output col, so a pl.Series
             return (
-                pl.select(
+                context.select(
                     func(*new_args, **new_kwargs).alias("__output__")
                 ).drop_in_place("__output__")
                 .rename(name.replace("query_", ""))
-- 
2.43.0


From 01e73433d7d9e382be653a808c4836152dbbd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 113/165] fix: compat took NumPy scalars given as options for
 columns

---
 python/polars_ds/compat/_compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/compat/_compat.py b/python/polars_ds/compat/_compat.py
index 60e85a5..1b14e19 100644
--- a/python/polars_ds/compat/_compat.py
+++ b/python/polars_ds/compat/_compat.py
@@ -23,7 +23,9 @@ class _Compat():
         Try to map the input to a Polars Series by going through a NumPy array. If
         this is not possible, return the original input.
         """
-        if isinstance(x, np.ndarray):
+        if isinstance(x, np.generic): # NumPy scalars are options, not columns
+            return x.item()
+        elif isinstance(x, np.ndarray):
             return pl.lit(pl.Series(name=name, values=x))
         elif isinstance(x, pl.Series):
             return pl.lit(x)
-- 
2.43.0


From c59c5cb4c8874edd1980c02b39527e7d61d82105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 114/165] fix: random functions panicked on empty input, null
 parameters and impossible ranges

---
 src/stats/sample.rs | 104 ++++++++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 29 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index 243b6f7..5e3922b 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -15,14 +15,24 @@ fn rng_from_seed(seed: Option<u64>) -> StdRng {
     }
 }
 
+/// The value of a parameter. It is missing if it is computed from a column with nothing but nulls.
+fn parameter<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> PolarsResult<T::Native> {
+    ca.first().ok_or_else(|| {
+        PolarsError::ComputeError("A parameter of the random function is null.".into())
+    })
+}
+
 #[polars_expr(output_type=Int32)]
 fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::Int32));
+    }
     let n = inputs[0].u32()?;
-    let n = n.get(0).unwrap() as usize;
+    let n = parameter(n)? as usize;
     let low = inputs[1].i32()?;
-    let mut low = low.get(0).unwrap();
+    let mut low = parameter(low)?;
     let high = inputs[2].i32()?;
-    let mut high = high.get(0).unwrap();
+    let mut high = parameter(high)?;
     if low == high {
         let out = Int32Chunked::from_vec(inputs[0].name().clone(), vec![low; n]);
         return Ok(out.into_series());
@@ -31,21 +41,24 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     }
     let seed = inputs[3].u64()?;
     let dist = Uniform::new(low, high);
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
     let out = Int32Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(n));
     Ok(out.into_series())
 }
 
 #[polars_expr(output_type=UInt64)]
 fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::UInt64));
+    }
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = parameter(len)? as usize;
     let n = inputs[1].u32()?;
-    let n = n.get(0).unwrap();
+    let n = parameter(n)?;
     let p = inputs[2].f64()?;
-    let p = p.get(0).unwrap();
+    let p = parameter(p)?;
     let seed = inputs[3].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
     let dist =
         Binomial::new(n.into(), p).map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
     let out = UInt64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
@@ -54,13 +67,16 @@ fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
 
 #[polars_expr(output_type=Float64)]
 fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::Float64));
+    }
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = parameter(len)? as usize;
     let lambda = inputs[1].f64()?;
-    let lambda = lambda.get(0).unwrap();
+    let lambda = parameter(lambda)?;
 
     let seed = inputs[2].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
     if lambda == 1.0 {
         let out =
             Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(Exp1).take(len));
@@ -75,14 +91,22 @@ fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
 
 #[polars_expr(output_type=Float64)]
 fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::Float64));
+    }
     let len: &ChunkedArray<UInt32Type> = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = parameter(len)? as usize;
     let low = inputs[1].f64()?;
-    let low = low.get(0).unwrap();
+    let low = parameter(low)?;
     let high = inputs[2].f64()?;
-    let high = high.get(0).unwrap();
+    let high = parameter(high)?;
     let seed = inputs[3].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
+    if !(low < high) || !(high - low).is_finite() {
+        return Err(PolarsError::ComputeError(
+            "Input `lower` must be smaller than `upper` and both must be finite.".into(),
+        ));
+    }
     let dist = Uniform::new(low, high);
     let out = Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
     Ok(out.into_series())
@@ -93,15 +117,24 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=float_output)]
 fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
+    if reference.is_empty() {
+        return Ok(reference.clone());
+    }
     let low = inputs[1].f64()?;
-    let low = low.get(0).unwrap();
+    let low = parameter(low)?;
     let high = inputs[2].f64()?;
-    let high = high.get(0).unwrap();
+    let high = parameter(high)?;
     let seed = inputs[3].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
 
     match reference.dtype() {
         DataType::Float32 => {
+            if low as f32 >= high as f32 {
+                return Ok(reference.clone()); // nothing to add
+            }
+            if !(high as f32 - low as f32).is_finite() {
+                return Err(PolarsError::ComputeError("Input `epsilon` is too big.".into()));
+            }
             let dist: Uniform<f32> = Uniform::new(low as f32, high as f32);
             let ca = reference.f32().unwrap();
             // Have to use _generic here to avoid the Copy trait
@@ -110,6 +143,9 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
             Ok(out.into_series())
         }
         DataType::Float64 => {
+            if low >= high {
+                return Ok(reference.clone()); // nothing to add
+            }
             let dist: Uniform<f64> = Uniform::new(low, high);
             let ca = reference.f64().unwrap();
             // Have to use _generic here to avoid the Copy trait
@@ -126,8 +162,11 @@ fn pl_perturb(inputs: &[Series]) -> PolarsResult<Series> {
 #[polars_expr(output_type_func=float_output)]
 fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
     let reference = &inputs[0];
+    if reference.is_empty() {
+        return Ok(reference.clone());
+    }
     let std_ = inputs[1].f64()?;
-    let std_ = std_.get(0).unwrap();
+    let std_ = parameter(std_)?;
     if !std_.is_finite() {
         return Err(PolarsError::ComputeError(
             "Input standard deviation is not finite.".into(),
@@ -135,7 +174,7 @@ fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
     }
 
     let seed = inputs[2].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
 
     match reference.dtype() {
         DataType::Float32 => {
@@ -161,15 +200,18 @@ fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
 
 #[polars_expr(output_type=Float64)]
 fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::Float64));
+    }
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = parameter(len)? as usize;
     let mean = inputs[1].f64()?;
-    let mean = mean.get(0).unwrap_or(0.);
+    let mean = mean.first().unwrap_or(0.);
     let std_ = inputs[2].f64()?;
-    let std_ = std_.get(0).unwrap_or(1.);
+    let std_ = std_.first().unwrap_or(1.);
 
     let seed = inputs[3].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
     if mean == 0. && std_ == 1.0 {
         let out = Float64Chunked::from_iter_values(
             inputs[0].name().clone(),
@@ -177,7 +219,8 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
         );
         Ok(out.into_series())
     } else {
-        let dist = Normal::new(mean, std_).unwrap();
+        let dist = Normal::new(mean, std_)
+            .map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
         let out =
             Float64Chunked::from_iter_values(inputs[0].name().clone(), (&mut rng).sample_iter(dist).take(len));
         Ok(out.into_series())
@@ -186,14 +229,17 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
 
 #[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
+    if inputs[0].is_empty() {
+        return Ok(Series::new_empty(inputs[0].name().clone(), &DataType::String));
+    }
     let len = inputs[0].u32()?;
-    let len = len.get(0).unwrap() as usize;
+    let len = parameter(len)? as usize;
     let min_size = inputs[1].u32()?;
-    let min_size = min_size.get(0).unwrap() as usize;
+    let min_size = parameter(min_size)? as usize;
     let max_size = inputs[2].u32()?;
-    let max_size = max_size.get(0).unwrap() as usize;
+    let max_size = parameter(max_size)? as usize;
     let seed = inputs[3].u64()?;
-    let mut rng = rng_from_seed(seed.get(0));
+    let mut rng = rng_from_seed(seed.first());
 
     let dist = Uniform::new_inclusive(min_size, max_size);
 
-- 
2.43.0


From 40e985a943e63eb2e4834bcd6f80e8310a6f6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 115/165] fix: t tests and normal_test panicked on columns
 without enough values for a mean, a variance or a skew

---
 python/polars_ds/exprs/stats.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index cd6e77d..f94e12e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -90,10 +90,10 @@ def ttest_ind(
     else:
         s1 = y1.filter(y1.is_finite())
         s2 = y2.filter(y2.is_finite())
-        m1 = s1.mean()
-        m2 = s2.mean()
-        v1 = s1.var()
-        v2 = s2.var()
+        m1 = s1.mean().fill_null(float("nan"))
+        m2 = s2.mean().fill_null(float("nan"))
+        v1 = s1.var().fill_null(float("nan"))
+        v2 = s2.var().fill_null(float("nan"))
         n1 = s1.len().cast(pl.UInt64)
         n2 = s2.len().cast(pl.UInt64)
         return pl_plugin(
@@ -121,9 +121,9 @@ def ttest_1samp(
     """
     y = str_to_expr(var1)
     s1 = y.filter(y.is_finite())
-    sm = s1.mean()
+    sm = s1.mean().fill_null(float("nan"))
     pm = pl.lit(pop_mean, dtype=pl.Float64)
-    var = s1.var()
+    var = s1.var().fill_null(float("nan"))
     cnt = s1.len().cast(pl.UInt64)
     alt = pl.lit(alternative, dtype=pl.String)
     return pl_plugin(
@@ -176,9 +176,9 @@ def ttest_ind_from_stats(
         )
     else:
         s1 = y.filter(y.is_finite())
-        m1 = s1.mean()
+        m1 = s1.mean().fill_null(float("nan"))
         m2 = pl.lit(mean, pl.Float64)
-        v1 = s1.var()
+        v1 = s1.var().fill_null(float("nan"))
         v2 = pl.lit(var, pl.Float64)
         n1 = s1.len().cast(pl.UInt64)
         n2 = pl.lit(cnt, pl.UInt64)
@@ -478,9 +478,9 @@ def normal_test(var: str | pl.Expr) -> pl.Expr:
     """
     y = str_to_expr(var)
     valid: pl.Expr = y.filter(y.is_finite())
-    skew = valid.skew()
+    skew = valid.skew().fill_null(float("nan"))
     # Pearson Kurtosis, see here: https://en.wikipedia.org/wiki/D%27Agostino%27s_K-squared_test
-    kur = valid.kurtosis(fisher=False)
+    kur = valid.kurtosis(fisher=False).fill_null(float("nan"))
     return pl_plugin(
         symbol="pl_normal_test",
         args=[skew, kur, valid.count().cast(pl.UInt32)],
-- 
2.43.0


From 0aafb299a45635aecd36c995a9255c6e8b10bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 116/165] fix: target_encode panicked on columns without a
 value

---
 src/num_ext/target_encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index 7cec570..fc33855 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -53,7 +53,8 @@ fn pl_target_encode(inputs: &[Series], kwargs: TargetEncodeKwargs) -> PolarsResu
     // Inputs[0] and inputs[1] are the string column and the target respectively
 
     let target_mean = inputs[2].cast(&DataType::Float64)?;
-    let target_mean = target_mean.f64()?.get(0).unwrap();
+    // There is no mean, and nothing to encode, if everything is null
+    let target_mean = target_mean.f64()?.first().unwrap_or(f64::NAN);
 
     let min_samples_leaf = kwargs.min_samples_leaf;
     let smoothing = kwargs.smoothing;
-- 
2.43.0


From 747a17b5b0f6915ea1c1d210cf4b231657941b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 117/165] fix: query_nb_cnt panicked on a null radius

---
 src/num_ext/knn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index a2881f9..9e465b6 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -686,7 +686,10 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let r = match radius.get(0) {
+            Some(r) => r,
+            None => return Ok(UInt32Chunked::full_null("cnt".into(), nrows).into_series()),
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From f06c181a4d66c05306b0a0e2286afb546b1d6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 118/165] fix: lin_reg_w_rcond panicked when the data has NaN
 or infinite values

---
 src/linalg/lr_solvers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 85281a8..12ae13f 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -205,7 +205,14 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
         }
     }
     // need work here
-    let svd = xtx.thin_svd().unwrap();
+    let svd = match xtx.thin_svd() {
+        Ok(svd) => svd,
+        // NaN or infinite values in the data
+        Err(_) => {
+            let m = x.ncols();
+            return (Mat::full(m, 1, T::nan()), vec![T::nan(); m]);
+        }
+    };
     let s = svd.S().column_vector();
     let singular_values = s.iter().copied().map(T::sqrt).collect::<Vec<_>>();
 
-- 
2.43.0


From 3285121a1d36ded9e7719198cc83f3ed20df01e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 119/165] fix: lin_reg_report panicked when there are no more
 rows than features

---
 src/stats_utils/beta.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stats_utils/beta.rs b/src/stats_utils/beta.rs
index 51f3449..c423f04 100644
--- a/src/stats_utils/beta.rs
+++ b/src/stats_utils/beta.rs
@@ -365,6 +365,9 @@ pub fn inv_beta_reg(mut a: f64, mut b: f64, mut x: f64) -> f64 {
 pub fn student_t_ppf(x: f64, df: f64) -> f64 {
     // first calculate inverse_cdf for normal Student's T
     assert!((0.0..=1.0).contains(&x));
+    if !(df > 0.) {
+        return f64::NAN;
+    }
     let x1 = if x >= 0.5 { 1.0 - x } else { x };
     let a = 0.5 * df;
     let b = 0.5;
-- 
2.43.0


From f5a1f22da076e3c38a97236ef6f309b48b9ab395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 120/165] fix: query_binary_metrics panicked when a prediction
 is NaN

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 32a67d2..839c19f 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -139,7 +139,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let probs = frame.drop_in_place("threshold").unwrap();
     let probs = probs.f64()?;
     let probs = probs.cont_slice().unwrap();
-    let index = match probs.binary_search_by(|x| x.partial_cmp(&threshold).unwrap()) {
+    let index = match probs.binary_search_by(|x| x.partial_cmp(&threshold).unwrap_or(core::cmp::Ordering::Greater)) {
         Ok(i) => i,
         Err(i) => i,
     };
-- 
2.43.0


From d269104097e718e58025d0664f477f85f78199f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 121/165] fix: query_similar_count panicked on nulls

---
 src/num_ext/subseq_sim.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index b2d8a0f..9425b73 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -26,9 +26,9 @@ fn pl_subseq_sim_cnt_l2(
     kwargs: SubseqQueryKwargs,
 ) -> PolarsResult<Series> {
     let seq = inputs[0].f64()?;
-    let seq = seq.cont_slice().unwrap();
+    let seq = seq.cont_slice()?;
     let query = inputs[1].f64()?;
-    let query = query.cont_slice().unwrap();
+    let query = query.cont_slice()?;
 
     if query.len() > seq.len() {
         return Err(PolarsError::ComputeError(
@@ -72,9 +72,9 @@ fn pl_subseq_sim_cnt_zl2(
     kwargs: SubseqQueryKwargs,
 ) -> PolarsResult<Series> {
     let seq = inputs[0].f64()?;
-    let seq = seq.cont_slice().unwrap();
+    let seq = seq.cont_slice()?;
     let query = inputs[1].f64()?; // is already z normalized
-    let query = query.cont_slice().unwrap();
+    let query = query.cont_slice()?;
 
     let rolling_mean = inputs[2].f64()?;
     let rolling_mean = rolling_mean.cont_slice()?;
-- 
2.43.0


From 12a2b1d129aedd407bbe3b410384b6bc4f43cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 122/165] fix: weighted linear regressions panicked on null
 weights

---
 src/num_ext/linear_regression.rs     | 6 +++---
 src/num_ext/linear_regression_f32.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 074faef..38b832c 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -359,7 +359,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
                 let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -561,7 +561,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
                 let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -785,7 +785,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
 
     let binding = inputs[0].cast(&DataType::Float64)?;
     let weights = binding.f64().unwrap();
-    let weights = weights.cont_slice().unwrap();
+    let weights = weights.cont_slice()?;
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7bb9008..867b26d 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -280,7 +280,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
                 let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -489,7 +489,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
                 let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -712,7 +712,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
 
     let binding = inputs[0].cast(&DataType::Float32)?;
     let weights = binding.f32().unwrap();
-    let weights = weights.cont_slice().unwrap();
+    let weights = weights.cont_slice()?;
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
-- 
2.43.0


From 68240ea74a5e748632f6e7b7b881cdbbdd6b9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 123/165] fix: rolling and recursive regressions panicked on
 fewer rows than the window

---
 src/linalg/lr_online_solvers.rs      | 13 +++++++++++--
 src/num_ext/linear_regression.rs     |  4 ++--
 src/num_ext/linear_regression_f32.rs |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 1eeb181..d57af2c 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -169,6 +169,9 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        return vec![]; // not enough rows for the first fit
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
@@ -203,10 +206,13 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
+    if xn < n {
+        return vec![]; // not enough rows for the first fit
+    }
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     let x0 = x.get(..n, ..);
     let y0 = y.get(..n, ..);
@@ -245,11 +251,14 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
+    if xn < n {
+        return vec![]; // not enough rows for the first fit
+    }
     // x: size xn x m
     // y: size xn x 1
     // n is window size. m is min_window_size after skipping null rows. n >= m > 0.
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     // Initialize the problem.
     let mut non_null_cnt_in_window: usize = 0;
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 38b832c..3cd933f 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -969,7 +969,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             } else {
                 // n always > 1, guaranteed in Python
                 let m = n.abs_diff(1);
-                for _ in 0..m {
+                for _ in 0..m.min(mat.nrows()) {
                     builder.append_null();
                     pred_builder.append_null();
                 }
@@ -1036,7 +1036,7 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
             let m = n - 1; // n >= 2 guaranteed in Python
-            for _ in 0..m {
+            for _ in 0..m.min(mat.nrows()) {
                 builder.append_null();
                 pred_builder.append_null();
             }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 867b26d..3dbe9a4 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -896,7 +896,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             } else {
                 // n always > 1, guaranteed in Python
                 let m = n.abs_diff(1);
-                for _ in 0..m {
+                for _ in 0..m.min(mat.nrows()) {
                     builder.append_null();
                     pred_builder.append_null();
                 }
@@ -963,7 +963,7 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
             let m = n - 1; // n >= 2 guaranteed in Python
-            for _ in 0..m {
+            for _ in 0..m.min(mat.nrows()) {
                 builder.append_null();
                 pred_builder.append_null();
             }
-- 
2.43.0


From 1a2a396f351b9073d2be5e4f7a5863d624d5cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 124/165] fix: substring similarities panicked on substr_size =
 0

---
 python/polars_ds/exprs/string.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index fc69e70..f71cb31 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -303,6 +303,9 @@ def str_jaccard(
         Whether to run the comparisons in parallel. Note that this is only recommended when this query
         is the only one in the context and we are not in any aggregation context.
     """
+    if substr_size < 1:
+        raise ValueError("Input `substr_size` must be >= 1.")
+
     return pl_plugin(
         symbol="pl_str_jaccard",
         args=[
@@ -341,6 +344,9 @@ def str_overlap_coeff(
         Whether to run the comparisons in parallel. Note that this is only recommended when this query
         is the only one in the context and we are not in any aggregation context.
     """
+    if substr_size < 1:
+        raise ValueError("Input `substr_size` must be >= 1.")
+
     return pl_plugin(
         symbol="pl_overlap_coeff",
         args=[
@@ -379,6 +385,9 @@ def str_sorensen_dice(
         Whether to run the comparisons in parallel. Note that this is only recommended when this query
         is the only one in the context and we are not in any aggregation context.
     """
+    if substr_size < 1:
+        raise ValueError("Input `substr_size` must be >= 1.")
+
     return pl_plugin(
         symbol="pl_sorensen_dice",
         args=[
@@ -430,6 +439,9 @@ def str_tversky_sim(
     ---------
     https://yassineelkhal.medium.com/the-complete-guide-to-string-similarity-algorithms-1290ad07c6b7
     """
+    if substr_size < 1:
+        raise ValueError("Input `substr_size` must be >= 1.")
+
     if alpha < 0 or beta < 0:
         raise ValueError("Input `alpha` and `beta` must be >= 0.")
 
-- 
2.43.0


From 226bb58afe7153f28f4e129ffcacce859936dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 125/165] fix: psi_w_breakpoints panicked on a null breakpoint

---
 src/num_ext/psi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 7b89921..9a47fd6 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -84,7 +84,7 @@ fn pl_psi_w_bps(inputs: &[Series]) -> PolarsResult<Series> {
     let s2 = binding.cont_slice().unwrap();
 
     let binding = breakpoints.rechunk();
-    let bp = binding.cont_slice().unwrap();
+    let bp = binding.cont_slice()?; // fails if there is a null
 
     let c1 = psi_with_bps_helper(s1, bp);
     let c2 = psi_with_bps_helper(s2, bp);
-- 
2.43.0


From 1939f018506eb92f3800af061668e30faa262665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 126/165] fix: KDTree radius queries of another dimension and
 NaNs in added points are refused instead of panicking

---
 src/pymodels/py_kdt.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index d43811e..f546a03 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -64,6 +64,8 @@ impl PyKDT {
             let matrix_slice = X.as_slice().unwrap();
             if ncols != self.kdt.dim() {
                 Err(LinalgErrors::DimensionMismatch.into())
+            } else if matrix_slice.iter().any(|x| x.is_nan()) {
+                Err(PyValueError::new_err("Input `X` cannot contain NaNs."))
             } else {
                 let cur_count = self.kdt.count_all();
                 for (i, sl) in matrix_slice.chunks_exact(ncols).enumerate() {
@@ -158,6 +160,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
                 return Err(LinalgErrors::Other(
@@ -216,6 +221,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -260,6 +268,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
@@ -322,6 +333,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -372,6 +386,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             let output: Vec<i32> = if parallel && nrows > 32 {
@@ -403,6 +420,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
-- 
2.43.0


From b7961c73f8e741ecba97a97a1e8b18ac8069e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 127/165] fix: OnlineLR.update refuses rows of another
 dimension instead of panicking

---
 src/pymodels/py_lr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pymodels/py_lr.rs b/src/pymodels/py_lr.rs
index bac5891..d236042 100644
--- a/src/pymodels/py_lr.rs
+++ b/src/pymodels/py_lr.rs
@@ -211,10 +211,20 @@ impl PyOnlineLR {
         }
     }
 
-    pub fn update(&mut self, X: PyReadonlyArray2<f64>, y: PyReadonlyArray2<f64>, c: f64) {
+    pub fn update(
+        &mut self,
+        X: PyReadonlyArray2<f64>,
+        y: PyReadonlyArray2<f64>,
+        c: f64,
+    ) -> PyResult<()> {
         let x = X.as_array().into_faer();
         let y = y.as_array().into_faer();
+        if x.ncols() + self.lr.has_bias() as usize != self.lr.inv.nrows() || x.nrows() != y.nrows()
+        {
+            return Err(LinalgErrors::DimensionMismatch.into());
+        }
         self.lr.update(x, y, c);
+        Ok(())
     }
 
     pub fn set_coeffs_bias_inverse(
-- 
2.43.0


From 91e4c8c879e4c7c89b9ce0bdbd360ad0f1b201b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 128/165] fix: KDTree.add sorts NaN last instead of panicking
 on it

---
 src/arkadia/kdt.rs     | 4 +++-
 src/pymodels/py_kdt.rs | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..94b0995 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -712,7 +712,9 @@ impl<T: Float + DistanceOps + 'static + Debug, A: Copy> OwnedKDT<T, A> {
                     }
                     SplitMethod::MEDIAN => {
                         new_data.sort_unstable_by(|l1, l2| {
-                            l1.value_at(axis).partial_cmp(&l2.value_at(axis)).unwrap()
+                            let (v1, v2) = (l1.value_at(axis), l2.value_at(axis));
+                            v1.partial_cmp(&v2)
+                                .unwrap_or_else(|| v1.is_nan().cmp(&v2.is_nan()))
                         });
                         let split_idx = new_data.len() >> 1;
                         let split_value = new_data[split_idx].value_at(axis);
diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index f546a03..2d88156 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -64,8 +64,6 @@ impl PyKDT {
             let matrix_slice = X.as_slice().unwrap();
             if ncols != self.kdt.dim() {
                 Err(LinalgErrors::DimensionMismatch.into())
-            } else if matrix_slice.iter().any(|x| x.is_nan()) {
-                Err(PyValueError::new_err("Input `X` cannot contain NaNs."))
             } else {
                 let cur_count = self.kdt.count_all();
                 for (i, sl) in matrix_slice.chunks_exact(ncols).enumerate() {
-- 
2.43.0


From f75e7140f2dee6ea23d2f1ada4868b36f47a3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 129/165] fix: KNN, haversine, xlogy and weighted regressions
 refuse columns of unfit types instead of panicking

---
 src/num_ext/float_extras.rs          |  4 ++--
 src/num_ext/haversine.rs             | 16 ++++++++--------
 src/num_ext/knn.rs                   | 16 ++++++++--------
 src/num_ext/linear_regression.rs     |  6 +++---
 src/num_ext/linear_regression_f32.rs |  6 +++---
 5 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index 6ffaecd..e5e3d34 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -275,8 +275,8 @@ fn pl_next_down(inputs: &[Series]) -> PolarsResult<Series> {
 fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     let s1 = &inputs[0];
     let s2 = &inputs[1];
-    let ca1 = s1.f64().unwrap();
-    let ca2 = s2.f64().unwrap();
+    let ca1 = s1.f64()?;
+    let ca2 = s2.f64()?;
     // binary_elementwise_values does not broadcast
     let ca: Float64Chunked = match (ca1.len(), ca2.len()) {
         (n, m) if n == m => binary_elementwise_values(ca1, ca2, xlogy::<f64>),
diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 0be3115..4e3a952 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -58,18 +58,18 @@ where
 fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
     let out = match inputs[0].dtype() {
         DataType::Float32 => {
-            let x_lat = inputs[0].f32().unwrap();
-            let x_long = inputs[1].f32().unwrap();
-            let y_lat = inputs[2].f32().unwrap();
-            let y_long = inputs[3].f32().unwrap();
+            let x_lat = inputs[0].f32()?;
+            let x_long = inputs[1].f32()?;
+            let y_lat = inputs[2].f32()?;
+            let y_long = inputs[3].f32()?;
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
             out.into_series()
         }
         DataType::Float64 => {
-            let x_lat = inputs[0].f64().unwrap();
-            let x_long = inputs[1].f64().unwrap();
-            let y_lat = inputs[2].f64().unwrap();
-            let y_long = inputs[3].f64().unwrap();
+            let x_lat = inputs[0].f64()?;
+            let x_long = inputs[1].f64()?;
+            let y_lat = inputs[2].f64()?;
+            let y_long = inputs[3].f64()?;
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
             out.into_series()
         }
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 9e465b6..18f4547 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -113,9 +113,9 @@ fn pl_knn_avg(
     let min_bound = kwargs.min_bound;
     let method = KNNMethod::new(kwargs.weighted, min_bound);
 
-    let id = inputs[0].f64().unwrap();
+    let id = inputs[0].f64()?;
     let id = id.cont_slice()?;
-    let null_mask = inputs[1].bool().unwrap();
+    let null_mask = inputs[1].bool()?;
     let nrows = null_mask.len();
 
     // let data = series_to_ndarray(&inputs[2..], IndexOrder::C)?;
@@ -297,16 +297,16 @@ fn pl_knn_ptwise(
     let can_parallel = kwargs.parallel && !context.parallel();
     let skip_eval = kwargs.skip_eval;
 
-    let id = inputs[0].u32().unwrap();
+    let id = inputs[0].u32()?;
     let id = id.cont_slice()?;
     let nrows = id.len();
 
     // True means keep
-    let keep_mask = inputs[1].bool().unwrap();
+    let keep_mask = inputs[1].bool()?;
 
     let mut inputs_offset = 2;
     let eval_mask = if skip_eval {
-        let eval_mask = inputs[2].bool().unwrap();
+        let eval_mask = inputs[2].bool()?;
         inputs_offset = 3;
         eval_mask
             .iter()
@@ -464,15 +464,15 @@ fn pl_knn_ptwise_w_dist(
     let can_parallel = kwargs.parallel && !context.parallel();
     let skip_eval = kwargs.skip_eval;
 
-    let id = inputs[0].u32().unwrap();
+    let id = inputs[0].u32()?;
     let id = id.cont_slice()?;
     let nrows = id.len();
 
-    let null_mask = inputs[1].bool().unwrap();
+    let null_mask = inputs[1].bool()?;
 
     let mut inputs_offset = 2;
     let eval_mask = if skip_eval {
-        let eval_mask = inputs[2].bool().unwrap();
+        let eval_mask = inputs[2].bool()?;
         inputs_offset = 3;
         eval_mask
             .iter()
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 3cd933f..f61f317 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -358,7 +358,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
-                let weights = binding.f64().unwrap();
+                let weights = binding.f64()?;
                 let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
@@ -560,7 +560,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let x = mat.slice(s![.., 1..]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
-                let weights = binding.f64().unwrap();
+                let weights = binding.f64()?;
                 let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
@@ -784,7 +784,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float64)?;
-    let weights = binding.f64().unwrap();
+    let weights = binding.f64()?;
     let weights = weights.cont_slice()?;
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 3dbe9a4..df32dcd 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -279,7 +279,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
-                let weights = binding.f32().unwrap();
+                let weights = binding.f32()?;
                 let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
@@ -488,7 +488,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let x = mat.slice(s![.., 1..]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
-                let weights = binding.f32().unwrap();
+                let weights = binding.f32()?;
                 let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
@@ -711,7 +711,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float32)?;
-    let weights = binding.f32().unwrap();
+    let weights = binding.f32()?;
     let weights = weights.cont_slice()?;
     // index 0 is weights, 1 is y_var, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
-- 
2.43.0


From a0546c831c853621ad8ad6e81e7b79c1fea342b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 130/165] hook guards the allocator: the system's under --cfg
 pds_verif

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f49746f..9282485 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,13 @@ fn _polars_ds(_py: Python<'_>, m: &Bound<'_, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+#[cfg(not(pds_verif))]
 use pyo3_polars::PolarsAllocator;
+#[cfg(not(pds_verif))]
 #[global_allocator]
 static ALLOC: PolarsAllocator = PolarsAllocator::new();
+
+// Runtime monitoring (--cfg pds_verif): allocate from the system, where sanitizers watch
+#[cfg(pds_verif)]
+#[global_allocator]
+static ALLOC: std::alloc::System = std::alloc::System;
-- 
2.43.0


From 6f9a40a8a20e6e80dbd58dd7ad8438b43faa7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 131/165] fix: KDTree and linear models copy unaligned arrays
 instead of reading them in place

---
 python/polars_ds/linear_models.py | 18 ++++++++++++------
 python/polars_ds/spatial.py       |  9 +++++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index d2e1c7c..eabde0a 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -60,11 +60,17 @@ def _handle_nulls_in_df(
             raise ValueError(f"Unknown null_policy. Error: {e}")
 
 
+def _aligned(X: np.ndarray) -> np.ndarray:
+    # Rust reads the buffer in place, which needs aligned values
+    return np.require(X, requirements="A")
+
+
 def _handle_nans_in_np(
     X: np.ndarray,  # N x M
     y: np.ndarray,  # N x 1
     null_policy: NullPolicy,
 ) -> Tuple[np.ndarray, np.ndarray]:
+    X, y = _aligned(X), _aligned(y)
     if null_policy == "ignore":
         return (X, y)
     elif null_policy == "raise":
@@ -271,7 +277,7 @@ class LR:
         X
             Data to predict on, as a matrix
         """
-        return self._lr.predict(X).reshape((-1, 1))
+        return self._lr.predict(_aligned(X)).reshape((-1, 1))
 
     def predict_df(self, df: PolarsFrame, name: str = "prediction") -> PolarsFrame:
         """
@@ -472,7 +478,7 @@ class ElasticNet:
         X
             Data to predict on, as a matrix
         """
-        return self._en.predict(X).reshape((-1, 1))
+        return self._en.predict(_aligned(X)).reshape((-1, 1))
 
     def predict_df(self, df: PolarsFrame, name: str = "prediction") -> PolarsFrame:
         """
@@ -544,7 +550,7 @@ class OnlineLR:
         """
         coefficients = np.ascontiguousarray(coeffs, dtype=np.float64).flatten()
         lr = cls(has_bias=(bias > 0.0), lambda_=0.0)
-        lr._lr.set_coeffs_bias_inverse(coefficients, bias, inv)
+        lr._lr.set_coeffs_bias_inverse(coefficients, bias, _aligned(inv))
         return lr
 
     def is_fit(self) -> bool:
@@ -594,7 +600,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(_aligned(X), _aligned(y))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
@@ -622,7 +628,7 @@ class OnlineLR:
         else:
             y_2d = y.reshape((1, 1))
 
-        self._lr.update(x_2d, y_2d, c)
+        self._lr.update(_aligned(x_2d), _aligned(y_2d), c)
         return self
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -634,4 +640,4 @@ class OnlineLR:
         X
             Data to predict on, as a matrix
         """
-        return self._lr.predict(X).reshape((-1, 1))
+        return self._lr.predict(_aligned(X)).reshape((-1, 1))
diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index ba4742a..b7005e0 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -41,6 +41,7 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        X = np.require(X, requirements="A")
         if distance not in ("l1", "l2", "sql2", "inf"):
             raise ValueError(f"The given distance `{distance}` is not supported.")
 
@@ -71,6 +72,7 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        X = np.require(X, requirements="A")
 
         self.kdt.add(X)
         return self
@@ -108,6 +110,7 @@ class KDTree:
 
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        X = np.require(X, requirements="A")
 
         return self.kdt.knn(
             X, k, epsilon=abs(epsilon), max_dist_bound=abs(max_dist_bound), parallel=parallel
@@ -142,6 +145,7 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        X = np.require(X, requirements="A")
 
         if isinstance(r, (int, float)):
             rad = float(r)
@@ -150,7 +154,7 @@ class KDTree:
             else:
                 return self.kdt.within_idx_only(X, rad, sort, parallel)
         elif isinstance(r, np.ndarray):
-            rad = np.ravel(r)
+            rad = np.require(np.ravel(r), requirements="A")
             if len(rad) == 1:
                 return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
@@ -179,11 +183,12 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        X = np.require(X, requirements="A")
 
         if isinstance(r, (int, float)):
             return self.kdt.within_count(X, float(r), parallel)
         elif isinstance(r, np.ndarray):
-            rad = np.ravel(r)
+            rad = np.require(np.ravel(r), requirements="A")
             if len(rad) == 1:
                 return self.within_count(X, float(rad[0]), parallel)
             else:
-- 
2.43.0


From 1deb96cf4769d8232bded2e865f9f65f52084e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 132/165] fix: is_knn_from and within_dist_from treat rows with
 null features as missing and sum distances in a fixed order

---
 python/polars_ds/exprs/expr_knn.py | 52 ++++++++++++++++--------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 510b260..17a187b 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -4,6 +4,8 @@ KNN related query expressions in Polars.
 
 from __future__ import annotations
 import polars as pl
+from functools import reduce
+from operator import add
 from typing import Any, Iterable, List, Sequence, cast
 import warnings
 
@@ -49,6 +51,18 @@ def warn_len_compare(item1: Iterable[Any], item2: Iterable[Any]) -> bool:
         return True
 
 
+def _sum_exprs(exprs: Iterable[pl.Expr]) -> pl.Expr:
+    """
+    Sums the expressions from left to right. Unlike pl.sum_horizontal, a null in any of them makes the sum null
+    and the order of additions (so the rounding) is always the same.
+    """
+    return reduce(add, exprs)
+
+
+def _not_null(features: List[pl.Expr]) -> pl.Expr:
+    return pl.all_horizontal(e.is_not_null() for e in features)
+
+
 def query_dist_from_kth_nb(
     *features: str | pl.Expr,
     k: int,
@@ -360,28 +374,20 @@ def within_dist_from(
         raise ValueError("Dimension does not match.")
 
     if dist == "l1":
-        return (
-            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
-        )
+        return _sum_exprs((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)) <= r
     elif dist in ("l2", "sql2"):
-        sq_dist = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
-        )
+        sq_dist = _sum_exprs((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
         return (sq_dist.sqrt() if dist == "l2" else sq_dist) <= r
     elif dist == "inf":
-        return (
-            pl.max_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
-            <= r
+        max_dist = pl.max_horizontal(
+            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
+        return pl.when(_not_null(oth)).then(max_dist) <= r
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
-        oth_norm = pl.sum_horizontal(e * e for e in oth)
-        distN = (
-            1.0
-            - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
-        )
+        oth_norm = _sum_exprs(e * e for e in oth)
+        distN = 1.0 - _sum_exprs(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         return distN <= r
     elif dist in ("h", "haversine"):
         from . import haversine
@@ -427,27 +433,23 @@ def is_knn_from(
         raise ValueError("Dimension does not match.")
 
     if dist == "l1":
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
-        )
+        dist_out = _sum_exprs((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist in ("l2", "sql2"):
-        dist_out = pl.sum_horizontal(
-            (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
-        )
+        dist_out = _sum_exprs((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist == "inf":
-        dist_out = pl.max_horizontal(
+        max_dist = pl.max_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
+        dist_out = pl.when(_not_null(oth)).then(max_dist)
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
-        oth_norm = pl.sum_horizontal(e * e for e in oth)
+        oth_norm = _sum_exprs(e * e for e in oth)
         dist_out = (
-            1.0
-            - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
+            1.0 - _sum_exprs(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         )
         return dist_out <= dist_out.bottom_k(k=k).max()
     elif dist in ("h", "haversine"):
-- 
2.43.0


From ba161fffec89e8245fb0b4c38ff603f128031df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 133/165] fix: the cosine distance of is_knn_from and
 within_dist_from squares integers as floats

---
 python/polars_ds/exprs/expr_knn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 17a187b..d3cec8f 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -386,6 +386,7 @@ def within_dist_from(
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
+        oth = [e.cast(pl.Float64) for e in oth]  # squares may overflow small integers
         oth_norm = _sum_exprs(e * e for e in oth)
         distN = 1.0 - _sum_exprs(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         return distN <= r
@@ -447,6 +448,7 @@ def is_knn_from(
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
+        oth = [e.cast(pl.Float64) for e in oth]  # squares may overflow small integers
         oth_norm = _sum_exprs(e * e for e in oth)
         dist_out = (
             1.0 - _sum_exprs(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
-- 
2.43.0


From 2a60ab2375a679be710d291d0685417fe86290c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 134/165] fix: query_dist_from_kth_nb gives null, not the
 distance to a closer row, where the k-th neighbor is beyond the bound

---
 src/num_ext/knn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 18f4547..2cc3ec5 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -255,7 +255,8 @@ fn pl_dist_from_kth_nb(
 
                     for point in slice.chunks_exact(ncols) {
                         match tree.knn_bounded(k + 1, point, kwargs.max_bound, kwargs.epsilon) {
-                            Some(mut nbs) => {
+                            // Fewer found: the k-th neighbor isn't within the bound
+                            Some(mut nbs) if nbs.len() > k => {
                                 builder.append_option(nbs.pop().map(|nb| nb.to_dist()));
                             }
                             _ => builder.append_null(),
@@ -271,7 +272,7 @@ fn pl_dist_from_kth_nb(
                     PrimitiveChunkedBuilder::new("".into(), nrows);
                 for point in data.chunks_exact(ncols) {
                     match tree.knn_bounded(k + 1, point, kwargs.max_bound, kwargs.epsilon) {
-                        Some(mut nbs) => {
+                        Some(mut nbs) if nbs.len() > k => {
                             builder.append_option(nbs.pop().map(|nb| nb.to_dist()));
                         }
                         _ => builder.append_null(),
-- 
2.43.0


From 2c33945a1f7cb858b06898dcceeb346eae57d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 135/165] fix: blueprint steps no longer follow later changes
 to the list or dict they were given

---
 python/polars_ds/modeling/_structures.py | 5 +++++
 python/polars_ds/modeling/pipeline.py    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/_structures.py b/python/polars_ds/modeling/_structures.py
index 6517347..b46af7a 100644
--- a/python/polars_ds/modeling/_structures.py
+++ b/python/polars_ds/modeling/_structures.py
@@ -15,6 +15,11 @@ class FitStep:  # Not a FittedStep
     cols: IntoExprColumn | None
     exclude: List[str]
 
+    def __post_init__(self):
+        # The step is fitted later: it must not follow changes to the caller's list until then.
+        if isinstance(self.cols, list):
+            self.cols = list(self.cols)
+
     # Here we allow IntoExprColumn as input so that users can use selectors, or other polars expressions
     # to specify input columns, which adds flexibility.
     # We still need real column names so that the functions in transforms.py will work.
diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 465c00d..0053abf 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -426,7 +426,7 @@ class Blueprint:
         """
         self._steps.append(
             FitStep(
-                partial(t.conditional_impute, rules_dict=rules_dict, method=method),
+                partial(t.conditional_impute, rules_dict=dict(rules_dict), method=method),
                 None,
                 self.exclude,
             )
-- 
2.43.0


From 00ebbeafc6632a49ff38b4d44ff73e908505f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 136/165] fix: Pipeline.from_dict no longer shares its feature
 names with the dictionary

---
 python/polars_ds/modeling/pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 0053abf..32892c9 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -174,8 +174,8 @@ class Pipeline:
         return Pipeline(
             name=name,
             target=target,
-            feature_names_in_=feature_names_in_,
-            feature_names_out_=feature_names_out_,
+            feature_names_in_=list(feature_names_in_),
+            feature_names_out_=list(feature_names_out_),
             transforms=transform_steps,
             ensure_features_in=ensure_features_in,
             ensure_features_out=ensure_features_out,
-- 
2.43.0


From 42762207b596eae950631c09f632276e895091d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 137/165] fix: a feature or target named literal was
 overwritten by the bias column in linear regressions

---
 src/num_ext/linear_regression.rs     | 8 +++++---
 src/num_ext/linear_regression_f32.rs | 8 +++++---
 src/utils/mod.rs                     | 9 +++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index f61f317..9326db8 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -5,7 +5,7 @@ use crate::linalg::{
     },
     IntoFaer, LRMethods,
 };
-use crate::utils::{to_frame, NullPolicy};
+use crate::utils::{to_frame, unused_name, NullPolicy};
 /// Least Squares using Faer and ndarray.
 use core::f64;
 use faer::{
@@ -206,7 +206,8 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        let bias = lit(1f64).alias(unused_name(&df, "literal"));
+        df = df.lazy().with_column(bias).collect()?;
     }
 
     // In mask, true means not null.
@@ -329,7 +330,8 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        let bias = lit(1f64).alias(unused_name(&df, "literal"));
+        df = df.lazy().with_column(bias).collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index df32dcd..8cffeb4 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -14,7 +14,7 @@ use crate::linalg::{
     },
     IntoFaer, LRMethods,
 };
-use crate::utils::{to_frame, NullPolicy};
+use crate::utils::{to_frame, unused_name, NullPolicy};
 /// Least Squares using Faer and ndarray.
 use core::f32;
 use faer::{
@@ -127,7 +127,8 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        let bias = lit(1f32).alias(unused_name(&df, "literal"));
+        df = df.lazy().with_column(bias).collect()?;
     }
 
     // In mask, true means not null.
@@ -250,7 +251,8 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        let bias = lit(1f32).alias(unused_name(&df, "literal"));
+        df = df.lazy().with_column(bias).collect()?;
     }
 
     if df.is_empty() {
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 2c509f9..8b3eeb0 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -61,6 +61,15 @@ pub fn to_frame(inputs: &[Series]) -> PolarsResult<DataFrame> {
     DataFrame::new(inputs.iter().map(|s| s.clone().into_column()).collect())
 }
 
+/// A name that no column in df has. To be used when adding a column to user's data.
+pub fn unused_name(df: &DataFrame, name: &str) -> PlSmallStr {
+    let mut name = name.to_string();
+    while df.get_column_index(&name).is_some() {
+        name.push('_');
+    }
+    name.into()
+}
+
 /// Organizes the series data into a `matrix`, and return the underlying slice
 /// as a row-major slice. This code here is taken from polars dataframe.to_ndarray()
 #[inline(always)]
-- 
2.43.0


From 08c0cb571985900c244ebf2cfaae7ad187d8cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 138/165] fix: query_ar_coeffs refused columns whose name is a
 number up to lag

---
 python/polars_ds/exprs/ts_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 1c6ddd9..2fe4077 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -455,7 +455,7 @@ def query_ar_coeffs(
     xx = str_to_expr(x)
     return lin_reg(
         *[xx.shift(i).slice(offset=lag).alias(str(i)) for i in range(1, lag + 1)],
-        target=xx.slice(offset=lag),
+        target=xx.slice(offset=lag).alias("0"),
         add_bias=add_bias,
         null_policy=null_policy,
     )
-- 
2.43.0


From d1f345ec7c4de5380350f877aad6a9f34b847f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 139/165] fix: psi_discrete refused a column named count

---
 python/polars_ds/exprs/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 1555ce0..3a2dc39 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -522,7 +522,7 @@ def psi_discrete(
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
         # Sorted, because the two fields are evaluated separately and must be in the same order
-        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = new_.alias("").value_counts().sort()
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -533,7 +533,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
+        temp = base.alias("").value_counts().sort()
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From 8ab45519d8c23dd91f5704f61826efb751e8860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 140/165] fix: volume_neutral refused a column named count

---
 python/polars_ds/sample_and_split/sample_and_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index b96d0ca..7cb2b61 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -78,10 +78,10 @@ def volume_neutral(
     seed
         A random seed
     """
+    # The output of value_counts cannot have two fields of the name count
+    target = by.alias("").value_counts().struct.field("count").min()
     if isinstance(target_volume, int):
-        target = pl.min_horizontal(by.value_counts().struct.field("count").min(), target_volume)
-    else:
-        target = by.value_counts().struct.field("count").min()
+        target = pl.min_horizontal(target, target_volume)
 
     if isinstance(control, pl.Expr):
         ctrl = [control]
-- 
2.43.0


From fceb8123b4b40cd44c859f0ee4f11f4b1ab74aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 141/165] fix: str_stats refused a column named count

---
 python/polars_ds/eda/diagnosis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 52d2407..5b3c02a 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -414,8 +414,14 @@ class DIA:
                 pl.lit(c).alias("column"),
                 pl.col(c).null_count().alias("null_count"),
                 pl.col(c).n_unique().alias("n_unique"),
-                pl.col(c).value_counts(sort=True).first().struct.field(c).alias("most_freq"),
                 pl.col(c)
+                .alias("")
+                .value_counts(sort=True)
+                .first()
+                .struct.field("")
+                .alias("most_freq"),
+                pl.col(c)
+                .alias("")
                 .value_counts(sort=True)
                 .first()
                 .struct.field("count")
-- 
2.43.0


From 0b39d4144dac6212218a426fdc1f180d78cbae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 142/165] fix: split_by_ratio lost a column named __tt and
 refused one named __id

---
 .../sample_and_split/sample_and_split.py      | 38 +++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 7cb2b61..e15c8f9 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -226,19 +226,13 @@ def split_by_ratio(
         if split_ratio <= 0.0 or split_ratio >= 1:
             raise ValueError("Split ratio must be > 0 and < 1.")
 
-        frames = (
-            df.lazy()
-            .with_row_index(name="__id")
-            .collect()
-            .with_columns(
-                (pl.col("__id").shuffle(seed=seed) < (pl.len() * split_ratio).cast(pl.Int64)).alias(
-                    "__tt"
-                )
-            )
-        )
-        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
-        return [train, test]
+        df_eager = df.lazy().collect()
+        # The mask is kept outside the frame, so it cannot clash with a column
+        mask = pl.select(
+            pl.int_range(len(df_eager), dtype=pl.get_index_type()).shuffle(seed=seed)
+            < int(len(df_eager) * split_ratio)
+        ).to_series()
+        return [df_eager.filter(mask), df_eager.filter(~mask)]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
@@ -246,23 +240,19 @@ def split_by_ratio(
             if not math.isclose(sum(split_ratio), 1):
                 raise ValueError("Sum of the ratios is not 1.")
 
-            df_eager = (
-                df.with_row_index(name="__id")
-                .with_columns(pl.col("__id").shuffle(seed=seed).alias("__tt"))
-                .sort("__tt")
-                .lazy()
-                .collect()
-            )
-
+            df_eager = df.lazy().collect()
             n = len(df_eager)
+            # Kept outside the frame, so it cannot clash with a column
+            order = pl.select(
+                pl.int_range(n, dtype=pl.get_index_type()).shuffle(seed=seed).arg_sort()
+            ).to_series()
+            df_eager = df_eager.select(pl.all().gather(order))
             start = 0
             dfs = []
             for i, v in enumerate(split_ratio):
                 # Whatever is lost by rounding down goes to the last split
                 length = int(n * v) if i < len(split_ratio) - 1 else n - start
-                dfs.append(
-                    df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
-                )
+                dfs.append(df_eager.slice(start, length=length))
                 start += length
 
             return dfs
-- 
2.43.0


From b01585418f5b36d17136627d1df3f49fab0c8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 143/165] fix: DIA.meta handed out the object's own lists

---
 python/polars_ds/eda/diagnosis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 5b3c02a..a870484 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -400,9 +400,7 @@ class DIA:
         """
         Returns internal data in this class as a dictionary.
         """
-        out = self.__dict__.copy()
-        out.pop("_frame")
-        return out
+        return {k: list(v) for k, v in self.__dict__.items() if k != "_frame"}
 
     def str_stats(self) -> pl.DataFrame:
         """
-- 
2.43.0


From d02bba49bbe5ef78c594219a16c94bcc269c217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 144/165] fix: the histogram of numeric_profile was wrong for
 integers whose range overflows and for infinities

---
 python/polars_ds/eda/diagnosis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index a870484..4a34ab4 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -144,6 +144,11 @@ class DIA:
         cuts[0] -= 1e-5
         cuts[-1] += 1e-5
 
+        def scaled(c: str) -> pl.Expr:
+            # From 0 to 1, for finite values. Floats, because small integer types would overflow
+            x = pl.col(c).filter(pl.col(c).is_finite()).cast(pl.Float64)
+            return (x - x.min()) / (x.max() - x.min())
+
         if histogram:
             columns_needed = [
                 [
@@ -171,8 +176,7 @@ class DIA:
                     .sum()
                     .alias("outlier_cnt"),
                     pl.struct(
-                        ((pl.col(c) - pl.col(c).min()) / (pl.col(c).max() - pl.col(c).min()))
-                        .filter(pl.col(c).is_finite())
+                        scaled(c)
                         .cut(breaks=cuts, left_closed=True, include_breaks=True)
                         .struct.rename_fields(["brk", "category"])
                         .struct.field("brk")
-- 
2.43.0


From d547dd84ebc04133541598a523385454ec6d10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 145/165] fix: query_permute_entropy refused a column named
 count

---
 python/polars_ds/exprs/ts_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 2fe4077..a9a4217 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -768,6 +768,7 @@ def query_permute_entropy(
         pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
         .filter(pl.int_range(t.len()) < rows)
         .list.eval(pl.element().arg_sort())
+        .alias("")  # value_counts cannot have two fields named count
         .value_counts()  # groupby and count, but returns a struct
         .struct.field("count")  # extract the field named "count"
         .entropy(base=base, normalize=True)
-- 
2.43.0


From 3d0940565b559bfe773b122a74c8e325818418e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 146/165] fix: plot_feature_distr failed with ZeroDivisionError
 when no row is left, and on columns without values

---
 python/polars_ds/eda/plots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index cd5bb37..31007ac 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -133,7 +133,8 @@ def plot_feature_distr(
 
         # stats overlay
         df_stats = pl.DataFrame(
-            {"names": ["p5", "median", "avg", "p95"], "stats": [p5, median, mean, p95]}
+            {"names": ["p5", "median", "avg", "p95"], "stats": [p5, median, mean, p95]},
+            schema={"names": pl.String, "stats": pl.Float64},
         )
 
         stats_base = alt.Chart(df_stats)
@@ -150,8 +151,9 @@ def plot_feature_distr(
             df_bad_values = pl.DataFrame(
                 {
                     "names": [""],
-                    "pcts": [(null_cnt + not_finite) / cnt],
-                }
+                    "pcts": [(null_cnt + not_finite) / cnt if cnt > 0 else None],
+                },
+                schema={"names": pl.String, "pcts": pl.Float64},
             )
 
             bad_values_chart = (
-- 
2.43.0


From 8a5735ba55a42630fc109f15a439daaa597673c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 147/165] fix: DIA.plot_feature_distr refused a column named
 literal

---
 python/polars_ds/eda/diagnosis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 4a34ab4..01f7505 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -864,10 +864,11 @@ class DIA:
         if max_ is not None:
             conditions.append(pl.col(feature) <= max_)
 
+        to_select = [feature] if over is None else [feature, over]
         if len(conditions) > 0:
-            df = self._frame.filter(pl.all_horizontal(*conditions)).select(feature, over).collect()
+            df = self._frame.filter(pl.all_horizontal(*conditions)).select(to_select).collect()
         else:
-            df = self._frame.select(feature, over).collect()
+            df = self._frame.select(to_select).collect()
 
         return plot_feature_distr(
             df=df,
-- 
2.43.0


From e334544091eeb33dd602a47ca15048981dae5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:01 +0000
Subject: [PATCH 148/165] fix: sample entropy counts pairs beyond 2^32

---
 src/num_ext/entrophies.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index 416477a..12f328b 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -136,12 +136,12 @@ fn pl_sample_entropy(
     let b = if can_parallel {
         data.chunks_exact(ncols)
             .par_bridge()
-            .map(|sl| tree.within_count(&sl[..ncols_minus_1], r).unwrap_or(0))
-            .sum::<u32>() as f64
+            .map(|sl| tree.within_count(&sl[..ncols_minus_1], r).unwrap_or(0) as u64)
+            .sum::<u64>() as f64
             - nrows as f64
     } else {
-        data.chunks_exact(ncols).fold(0u32, |acc, sl| {
-            acc + tree.within_count(&sl[..ncols_minus_1], r).unwrap_or(0)
+        data.chunks_exact(ncols).fold(0u64, |acc, sl| {
+            acc + tree.within_count(&sl[..ncols_minus_1], r).unwrap_or(0) as u64
         }) as f64
             - nrows as f64
     };
@@ -160,13 +160,13 @@ fn pl_sample_entropy(
         data.chunks_exact(ncols)
             .take(nrows_minus_1)
             .par_bridge()
-            .map(|sl| tree.within_count(sl, r).unwrap_or(0))
-            .sum::<u32>() as f64
+            .map(|sl| tree.within_count(sl, r).unwrap_or(0) as u64)
+            .sum::<u64>() as f64
             - nrows_minus_1 as f64
     } else {
         data.chunks_exact(ncols)
             .take(nrows_minus_1)
-            .fold(0u32, |acc, sl| acc + tree.within_count(sl, r).unwrap_or(0)) as f64
+            .fold(0u64, |acc, sl| acc + tree.within_count(sl, r).unwrap_or(0) as u64) as f64
             - nrows_minus_1 as f64
     };
     // Output
-- 
2.43.0


From c3814ef25b8af9f782e2e24d9e301f5ef5dedbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 149/165] fix: regression metrics overflowed on integer columns
 (unsigned differences, small integer products)

---
 python/polars_ds/exprs/metrics.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index ce79d2a..59096f2 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -67,8 +67,8 @@ def query_r2(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     ss_res = diff.dot(diff)
     a = pl.when(diff.is_not_null()).then(a)  # Both sums are over the same rows
@@ -90,8 +90,8 @@ def query_adj_r2(actual: str | pl.Expr, pred: str | pl.Expr, p: int) -> pl.Expr:
     p
         The number of explanatory variables
     """
-    actual_expr = str_to_expr(actual)
-    pred_expr = str_to_expr(pred)
+    actual_expr = str_to_expr(actual).cast(pl.Float64)
+    pred_expr = str_to_expr(pred).cast(pl.Float64)
     diff = actual_expr - pred_expr
     ss_res = diff.dot(diff)
     # Both sums are over the same rows
@@ -107,7 +107,7 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     """
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (p - a).cosh().log().mean()
     return (p - a).cosh().log().sum()
@@ -124,7 +124,7 @@ def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -
     pred
         An expression represeting the column with predicted probability.
     """
-    a, p = str_to_expr(actual), str_to_expr(pred)
+    a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
     temp = (a - p).abs()
     return (
         pl.when(temp <= delta)
@@ -147,8 +147,8 @@ def query_l2(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     diff = a - p
     if normalize:
         return diff.dot(diff) / diff.count()
@@ -168,8 +168,8 @@ def query_l1(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool = True)
     normalize
         Whether to divide by N. Nulls won't be counted in N.
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if normalize:
         return (a - p).abs().mean()
     return (a - p).abs().sum()
@@ -186,8 +186,8 @@ def query_l_inf(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     return (a - p).abs().max()
 
 
@@ -238,8 +238,8 @@ def query_mape(actual: str | pl.Expr, pred: str | pl.Expr, weighted: bool = Fals
     weighted
         If true, computes wMAPE in the wikipedia article
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     if weighted:
         return (a - p).abs().sum() / a.abs().sum()
     else:
@@ -261,8 +261,8 @@ def query_smape(actual: str | pl.Expr, pred: str | pl.Expr) -> pl.Expr:
     pred
         A Polars expression representing predictions
     """
-    a = str_to_expr(actual)
-    p = str_to_expr(pred)
+    a = str_to_expr(actual).cast(pl.Float64)
+    p = str_to_expr(pred).cast(pl.Float64)
     numerator = (a - p).abs()
     denominator = a.abs() + p.abs()
     return (numerator / denominator).mean()
@@ -304,8 +304,8 @@ def query_mase(
     if freq < 1:
         raise ValueError("Input `freq` must be >= 1.")
 
-    a: pl.Expr = str_to_expr(actual)
-    p: pl.Expr = str_to_expr(pred)
+    a: pl.Expr = str_to_expr(actual).cast(pl.Float64)
+    p: pl.Expr = str_to_expr(pred).cast(pl.Float64)
 
     if isinstance(train, float):
         if use_mean:
@@ -316,7 +316,7 @@ def query_mase(
         return numerator / pl.lit(train)
 
     else:
-        train_expr = str_to_expr(train)
+        train_expr = str_to_expr(train).cast(pl.Float64)
         if use_mean:
             numerator = (a - p).abs().mean()
             denom = train_expr.diff(n=freq).abs().mean()
-- 
2.43.0


From 6e510ea1bc5201e96f22a34cf4595d9ea3c67d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 150/165] fix: time series features overflowed on integer
 columns

---
 python/polars_ds/exprs/ts_features.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index a9a4217..012465b 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -52,7 +52,7 @@ def query_mid_range(x: str | pl.Expr) -> pl.Expr:
     """
     A shorthand for (pl.col(x).max() - pl.col(x).min()) / 2.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return (xx.max() - xx.min()) / 2
 
 
@@ -61,7 +61,7 @@ def query_symm_ratio(x: str | pl.Expr) -> pl.Expr:
     Returns the symmetric ratio: |mean - median| / (max - min). Note the closer to 0 this value is,
     the more symmetric the series is.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return (y.mean() - y.median()).abs() / (y.max() - y.min())
 
 
@@ -69,7 +69,7 @@ def query_abs_energy(x: str | pl.Expr) -> pl.Expr:
     """
     Absolute energy is defined as Sum(x_i^2).
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     return y.dot(y)
 
 
@@ -77,7 +77,7 @@ def query_mean_abs_change(x: str | pl.Expr) -> pl.Expr:
     """
     Returns the mean of all successive differences |X_i - X_i-1|
     """
-    return str_to_expr(x).diff(null_behavior="drop").abs().mean()
+    return str_to_expr(x).cast(pl.Float64).diff(null_behavior="drop").abs().mean()
 
 
 def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
@@ -349,7 +349,7 @@ def query_c3_stats(x: str | pl.Expr, lag: int) -> pl.Expr:
     https://arxiv.org/pdf/chao-dyn/9909043
     """
     two_lags = 2 * lag
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     return ((xx.mul(xx.shift(lag)).mul(xx.shift(two_lags))).sum()).truediv(xx.len() - two_lags)
 
 
@@ -369,7 +369,7 @@ def query_cid_ce(x: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     ---------
     https://www.cs.ucr.edu/~eamonn/Complexity-Invariant%20Distance%20Measure.pdf
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         y = (xx - xx.mean()) / xx.std()
     else:
@@ -384,7 +384,7 @@ def query_time_reversal_asymmetry_stats(x: str | pl.Expr, n_lags: int) -> pl.Exp
     Queries the Time Reversal Asymmetry Statistic, which is the average of
     (L^2(x) * L(x) - L(x) * x^2), where L is the lag operator.
     """
-    y = str_to_expr(x)
+    y = str_to_expr(x).cast(pl.Float64)
     one_lag = y.shift(-n_lags)
     two_lag = y.shift(-2 * n_lags)  # Nulls won't be in the mean calculation
     return (one_lag * (two_lag + y) * (two_lag - y)).mean()
@@ -405,7 +405,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     normalize
         Whether to normalize the value to [-1, 1] or not.
     """
-    xx = str_to_expr(x)
+    xx = str_to_expr(x).cast(pl.Float64)
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-- 
2.43.0


From 3699a9b263416b7438258ab11e0513604c7ab911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 151/165] fix: weighted statistics, cosine similarity and xi
 correlation overflowed on integer columns

---
 python/polars_ds/exprs/stats.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index f94e12e..4815f82 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -794,7 +794,7 @@ def weighted_mean(
     is_normalized
         If true, the weights are assumed to sum to 1. If false, will divide by sum of the weights
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     out = x.dot(w)
     if is_normalized:
         return out
@@ -822,7 +822,7 @@ def weighted_var(var: str | pl.Expr, weights: str | pl.Expr, freq_weights: bool
     ---------
     https://en.wikipedia.org/wiki/Weighted_arithmetic_mean#Weighted_sample_variance
     """
-    x, w = str_to_expr(var), str_to_expr(weights)
+    x, w = str_to_expr(var).cast(pl.Float64), str_to_expr(weights).cast(pl.Float64)
     wm = weighted_mean(x, w, False)
     summand = w.dot((x - wm).pow(2))
     if freq_weights:
@@ -850,7 +850,8 @@ def weighted_cov(x: str | pl.Expr, y: str | pl.Expr, weights: pl.Expr | float) -
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy, w = str_to_expr(x), str_to_expr(y), str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx, wy = weighted_mean(xx, w, False), weighted_mean(yy, w, False)
     return w.dot((xx - wx) * (yy - wy)) / w.sum()
 
@@ -875,8 +876,8 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
     syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
@@ -894,7 +895,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     y
         The second variable
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
     return xx.dot(yy) / (x2 * y2)
@@ -920,8 +921,8 @@ def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Ex
     ---------
     https://en.wikipedia.org/wiki/Pearson_correlation_coefficient#Weighted_correlation_coefficient
     """
-    xx, yy = str_to_expr(x), str_to_expr(y)
-    w = str_to_expr(weights)
+    xx, yy = str_to_expr(x).cast(pl.Float64), str_to_expr(y).cast(pl.Float64)
+    w = str_to_expr(weights).cast(pl.Float64)
     wx2 = xx.pow(2).dot(w)
     wy2 = yy.pow(2).dot(w)
     return (w * xx).dot(yy) / (wx2 * wy2).sqrt()
@@ -1016,7 +1017,7 @@ def xi_corr(
     args = [
         xx.rank(method="random", seed=seed),
         yy.rank(method="max").cast(pl.Float64),
-        (-yy).rank(method="max").cast(pl.Float64),
+        (-yy.cast(pl.Float64)).rank(method="max").cast(pl.Float64),
     ]
     if return_p:
         return pl_plugin(
-- 
2.43.0


From e9bccc24e33f8de6aa344c3f47465ed4a4ffc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 152/165] fix: horizontal norms and monotonicity checks
 overflowed on small integer columns

---
 python/polars_ds/exprs/num.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 3a2dc39..3d0be8f 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -74,9 +74,9 @@ def l_inf_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.max_horizontal(str_to_expr(x).abs() for x in exprs) / len(exprs)
+        return pl.max_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in exprs) / len(exprs)
     else:
-        return pl.max_horizontal(str_to_expr(x).abs() for x in v)
+        return pl.max_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in v)
 
 
 def l2_sq_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
@@ -92,9 +92,9 @@ def l2_sq_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.sum_horizontal(str_to_expr(x).pow(2) for x in exprs) / len(exprs)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).pow(2) for x in exprs) / len(exprs)
     else:
-        return pl.sum_horizontal(str_to_expr(x).pow(2) for x in v)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).pow(2) for x in v)
 
 
 def l1_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
@@ -110,9 +110,9 @@ def l1_horizontal(*v: str | pl.Expr, normalize: bool = False) -> pl.Expr:
     """
     if normalize:
         exprs = list(v)
-        return pl.sum_horizontal(str_to_expr(x).abs() for x in exprs) / len(exprs)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in exprs) / len(exprs)
     else:
-        return pl.sum_horizontal(str_to_expr(x).abs() for x in v)
+        return pl.sum_horizontal(str_to_expr(x).cast(pl.Float64).abs() for x in v)
 
 
 def is_increasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
@@ -126,10 +126,11 @@ def is_increasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
     strict
         Whether the check should be strict
     """
+    xx = str_to_expr(x)
     if strict:
-        return (str_to_expr(x).diff() > 0.0).all()
+        return (xx > xx.shift(1)).all()
     else:
-        return (str_to_expr(x).diff() >= 0.0).all()
+        return (xx >= xx.shift(1)).all()
 
 
 def is_decreasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
@@ -145,9 +146,9 @@ def is_decreasing(x: str | pl.Expr, strict: bool = False) -> pl.Expr:
     """
     xx = str_to_expr(x)
     if strict:
-        return (xx.diff() < 0.0).all()
+        return (xx < xx.shift(1)).all()
     else:
-        return (xx.diff() <= 0.0).all()
+        return (xx <= xx.shift(1)).all()
 
 
 def center(x: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 4a2bad73ae5415d4fcfaba8dbc14f40877b60cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 153/165] fix: simple_lin_reg overflowed on integer columns

---
 python/polars_ds/exprs/expr_linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index 8f7b717..678742a 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -68,8 +68,8 @@ def simple_lin_reg(
         residue, it will return the same number of rows as in input.
     """
     # No test. All forumla here are mathematically correct.
-    xx = lr_formula(x)
-    yy = lr_formula(target)
+    xx = lr_formula(x).cast(pl.Float64)
+    yy = lr_formula(target).cast(pl.Float64)
     if add_bias:
         if weights is None:
             x_mean = xx.mean()
@@ -77,7 +77,7 @@ def simple_lin_reg(
             beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             w_sum = w.sum()
             x_wmean = w.dot(xx) / w_sum
             y_wmean = w.dot(yy) / w_sum
@@ -94,7 +94,7 @@ def simple_lin_reg(
         if weights is None:
             beta = xx.dot(yy) / xx.dot(xx)
         else:
-            w = lr_formula(weights)
+            w = lr_formula(weights).cast(pl.Float64)
             beta = w.dot(xx * yy) / w.dot(xx.pow(2))
 
         if return_pred:
-- 
2.43.0


From 8d8db0572c49f61ac21608abe3ef7de8e50304ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 154/165] fix: min_max and abs_max scaling overflowed on small
 or unsigned integer columns

---
 python/polars_ds/modeling/transforms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 698e4fe..d470dee 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -214,8 +214,8 @@ def scale(
         temp = (
             df.lazy()
             .select(
-                pl.col(cols).min().name.prefix("min:"),
-                pl.col(cols).max().name.prefix("max:"),
+                pl.col(cols).min().cast(pl.Float64).name.prefix("min:"),
+                pl.col(cols).max().cast(pl.Float64).name.prefix("max:"),
             )
             .collect()
             .row(0)
@@ -226,7 +226,12 @@ def scale(
     elif method == "abs_max":
         temp = (
             df.lazy()
-            .select(pl.max_horizontal(pl.col(c).min().abs(), pl.col(c).max().abs()) for c in cols)
+            .select(
+                pl.max_horizontal(
+                    pl.col(c).min().cast(pl.Float64).abs(), pl.col(c).max().cast(pl.Float64).abs()
+                ).alias(c)
+                for c in cols
+            )
             .collect()
             .row(0)
         )
-- 
2.43.0


From 04d2582fc5e4f2e6b9be4caecab62705a0cbf29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 155/165] fix: the fitted line of plot_lin_reg overflowed on
 integer columns

---
 python/polars_ds/eda/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index 31007ac..3e5c143 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -231,8 +231,9 @@ def plot_lin_reg(
     to_select = [x, target] if weights is None else [x, target, weights]
     temp = df.lazy().select(*to_select)
 
-    xx = pl.col(x)
-    yy = pl.col(target)
+    # Floats, because small integer types would overflow
+    xx = pl.col(x).cast(pl.Float64)
+    yy = pl.col(target).cast(pl.Float64)
     # Although using simple_lin_reg might seem to be able to reduce some code here,
     # it adds complexity because of output type and the r2 query.
     # A little bit of code dup is reasonable.
@@ -243,7 +244,7 @@ def plot_lin_reg(
             beta = (xx - x_mean).dot(yy - y_mean) / (xx - x_mean).dot(xx - x_mean)
             alpha = y_mean - beta * x_mean
         else:
-            w = pl.col(weights)
+            w = pl.col(weights).cast(pl.Float64)
             w_sum = w.sum()
             x_wmean = w.dot(xx) / w_sum
             y_wmean = w.dot(yy) / w_sum
@@ -253,7 +254,7 @@ def plot_lin_reg(
         if weights is None:
             beta = xx.dot(yy) / xx.dot(xx)
         else:
-            w = pl.col(weights)
+            w = pl.col(weights).cast(pl.Float64)
             beta = w.dot(xx * yy) / w.dot(xx.pow(2))
 
         alpha = pl.lit(0, dtype=pl.Float64)
-- 
2.43.0


From bad0c03e4ebc52f8136b7f79556ea8bf034c0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 156/165] fix: log_cosh was infinite for errors beyond 710

---
 python/polars_ds/exprs/metrics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 59096f2..360bd6c 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+import math
+
 import numpy as np
 import polars as pl
 
@@ -108,9 +110,12 @@ def query_log_cosh(actual: str | pl.Expr, pred: str | pl.Expr, normalize: bool =
     Computes log cosh of the the prediction error, which is a smooth variation of MAE (L1 loss).
     """
     a, p = str_to_expr(actual).cast(pl.Float64), str_to_expr(pred).cast(pl.Float64)
+    d = (p - a).abs()
+    # log(cosh(d)) without computing cosh(d), which overflows for large d
+    log_cosh = d + (-2.0 * d).exp().log1p() - math.log(2.0)
     if normalize:
-        return (p - a).cosh().log().mean()
-    return (p - a).cosh().log().sum()
+        return log_cosh.mean()
+    return log_cosh.sum()
 
 
 def query_hubor_loss(actual: str | pl.Expr, pred: str | pl.Expr, delta: float) -> pl.Expr:
-- 
2.43.0


From 6afc8e6e275212507b5de44132233e38e20d8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 157/165] fix: weighted mape counted rows without prediction in
 its denominator only

---
 python/polars_ds/exprs/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 360bd6c..9968c97 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -246,7 +246,9 @@ def query_mape(actual: str | pl.Expr, pred: str | pl.Expr, weighted: bool = Fals
     a = str_to_expr(actual).cast(pl.Float64)
     p = str_to_expr(pred).cast(pl.Float64)
     if weighted:
-        return (a - p).abs().sum() / a.abs().sum()
+        diff = a - p
+        # Both sums are over the same rows
+        return diff.abs().sum() / pl.when(diff.is_not_null()).then(a).abs().sum()
     else:
         return (1 - p / a).abs().mean()
 
-- 
2.43.0


From 5e4b71d13df47961b11566db378f32251253f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 158/165] fix: categorical cross entropy counted rows without
 prediction in its mean

---
 python/polars_ds/exprs/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 9968c97..dca367e 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -595,7 +595,7 @@ def query_cat_cross_entropy(
     else:
         y_prob = p.list.get(a.cast(pl.List(pl.Float64)).list.arg_max())
     if normalize:
-        return -y_prob.log().sum() / a.count()
+        return -y_prob.log().mean()
     return -y_prob.log().sum()
 
 
-- 
2.43.0


From 10258b2af16d0b166c43bde49ccdfceb29f9ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 159/165] fix: t-tests and ks_2samp refused columns which are
 not Float64

---
 python/polars_ds/exprs/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 4815f82..bd17868 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -75,7 +75,7 @@ def ttest_ind(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y1, y2 = str_to_expr(var1), str_to_expr(var2)
+    y1, y2 = str_to_expr(var1).cast(pl.Float64), str_to_expr(var2).cast(pl.Float64)
     if equal_var:
         m1 = y1.mean()
         m2 = y2.mean()
@@ -119,7 +119,7 @@ def ttest_1samp(
     alternative : {"two-sided", "less", "greater"}
         Alternative of the hypothesis test
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     s1 = y.filter(y.is_finite())
     sm = s1.mean().fill_null(float("nan"))
     pm = pl.lit(pop_mean, dtype=pl.Float64)
@@ -162,7 +162,7 @@ def ttest_ind_from_stats(
         If true, perform standard student t 2 sample test. Otherwise, perform Welch's
         t test.
     """
-    y = str_to_expr(var1)
+    y = str_to_expr(var1).cast(pl.Float64)
     if equal_var:
         m1 = y.mean()
         m2 = pl.lit(mean, pl.Float64)
@@ -222,13 +222,14 @@ def ks_2samp(
     ---------
     https://en.wikipedia.org/wiki/Kolmogorov%E2%80%93Smirnov_test#Two-sample_Kolmogorov%E2%80%93Smirnov_test
     """
-    y1, y2 = str_to_expr(var1), str_to_expr(var2)
+    y1, y2 = str_to_expr(var1), str_to_expr(var2).cast(pl.Float64)
     if is_binary:
         z1 = y2.filter(y1 == 1)
         z2 = y2.filter(y1 == 0)
         z1 = z1.filter(z1.is_finite()).sort()
         z2 = z2.filter(z2.is_finite()).sort()
     else:
+        y1 = y1.cast(pl.Float64)
         z1 = y1.filter(y1.is_finite()).sort()
         z2 = y2.filter(y2.is_finite()).sort()
 
-- 
2.43.0


From 32954cb3921a64701effd66a7a02861674d53a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 160/165] fix: query_nb_cnt refused a radius column which is
 not Float64

---
 python/polars_ds/exprs/expr_knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index d3cec8f..31835c7 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -603,7 +603,7 @@ def query_nb_cnt(
 
     return pl_plugin(
         symbol="pl_nb_cnt",
-        args=[rad] + [str_to_expr(x) for x in features],
+        args=[rad.cast(pl.Float64)] + [str_to_expr(x) for x in features],
         kwargs={
             "k": 0,
             "metric": dist,
-- 
2.43.0


From 30d0bcfd71a3b4356f5ad4dfadc563791263659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:09 +0000
Subject: [PATCH 161/165] fix: haversine refused integer columns and mixed
 float types

---
 src/num_ext/haversine.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 4e3a952..695bc44 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -56,7 +56,17 @@ where
 
 #[polars_expr(output_type_func=float_output)]
 fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
-    let out = match inputs[0].dtype() {
+    // Integers, and floats that differ from the first column, are cast to the type of the output
+    let dtype = match inputs[0].dtype() {
+        DataType::Float32 => DataType::Float32,
+        dt if dt.is_primitive_numeric() => DataType::Float64,
+        _ => return Err(PolarsError::ComputeError("Data type not supported.".into())),
+    };
+    let inputs = inputs[..4]
+        .iter()
+        .map(|s| s.cast(&dtype))
+        .collect::<PolarsResult<Vec<_>>>()?;
+    let out = match dtype {
         DataType::Float32 => {
             let x_lat = inputs[0].f32()?;
             let x_long = inputs[1].f32()?;
@@ -65,7 +75,7 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
             out.into_series()
         }
-        DataType::Float64 => {
+        _ => {
             let x_lat = inputs[0].f64()?;
             let x_long = inputs[1].f64()?;
             let y_lat = inputs[2].f64()?;
@@ -73,7 +83,6 @@ fn pl_haversine(inputs: &[Series]) -> PolarsResult<Series> {
             let out = naive_haversine(x_lat, x_long, y_lat, y_long)?;
             out.into_series()
         }
-        _ => return Err(PolarsError::ComputeError("Data type not supported.".into())),
     };
     Ok(out.with_name(inputs[0].name().clone()))
 }
-- 
2.43.0


From 9bd4efe4b2c14287b9f7e52c05128dfaf4700f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 162/165] fix: fit_df refused frames of integers

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index eabde0a..ef23eaa 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -260,7 +260,7 @@ class LR:
 
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
@@ -461,7 +461,7 @@ class ElasticNet:
         """
         df2 = (
             _handle_nulls_in_df(df.lazy(), features, target, null_policy)
-            .select(*features, target)
+            .select(pl.col(*features, target).cast(pl.Float64))
             .collect()
         )
         X = df2.select(features).to_numpy()
-- 
2.43.0


From 569cd52b52192c02bf5922e67be2fc241991f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 163/165] fix: query_mean_n_abs_max wrapped on the smallest
 integer of a type

---
 python/polars_ds/exprs/ts_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 012465b..7db7fed 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -86,7 +86,8 @@ def query_mean_n_abs_max(x: str | pl.Expr, n_maxima: int) -> pl.Expr:
     """
     if n_maxima <= 0:
         raise ValueError("The number of maxima should be > 0.")
-    return str_to_expr(x).abs().top_k(n_maxima).mean()
+    # Float first: the absolute value of the smallest integer of a type is not in that type
+    return str_to_expr(x).cast(pl.Float64).abs().top_k(n_maxima).mean()
 
 
 def query_cv(x: str | pl.Expr, ddof: int = 1) -> pl.Expr:
-- 
2.43.0


From 76969a9b77ef78af7d001201ad6bce0099234550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 164/165] fix: calculate_ndcg failed or answered wrongly on
 columns named like its own

---
 python/polars_ds/exprs/metrics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index dca367e..e03ff9e 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -737,6 +737,14 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
+    # Only these columns are needed, under names that cannot clash with the columns added below
+    df = df.select(
+        pl.col(group_col).alias("_group"),
+        pl.col(relevance_col).alias("_relevance"),
+        pl.col(score_col).alias("_score"),
+    )
+    group_col, relevance_col, score_col = "_group", "_relevance", "_score"
+
     ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
-- 
2.43.0


From 412cfcac572f6f9db00f5e131b1a17e0ce40e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 165/165] fix: plot_feature_distr refused groups by a column
 named pcts

---
 python/polars_ds/eda/plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/eda/plots.py b/python/polars_ds/eda/plots.py
index 3e5c143..173cb08 100644
--- a/python/polars_ds/eda/plots.py
+++ b/python/polars_ds/eda/plots.py
@@ -176,19 +176,22 @@ def plot_feature_distr(
 
     else:  # over is not None
         if show_bad_values:
+            pcts = "pcts" if over != "pcts" else "pcts_"
             df_bad = data.group_by(over).agg(
-                pcts=(pl.col(feat).null_count() + pl.col(feat).is_finite().not_().sum()) / pl.len()
+                (
+                    (pl.col(feat).null_count() + pl.col(feat).is_finite().not_().sum()) / pl.len()
+                ).alias(pcts)
             )
             bad_values_chart = (
                 alt.Chart(df_bad)
                 .mark_bar(opacity=0.7)
                 .encode(
-                    x=alt.X("pcts:Q", scale=alt.Scale(domain=[0, 1]))
+                    x=alt.X(f"{pcts}:Q", scale=alt.Scale(domain=[0, 1]))
                     .axis(format=".0%")
                     .title("Null or Non-Finite %"),
                     y=alt.Y(f"{over}:N"),
                     tooltip=[
-                        alt.Tooltip("pcts:Q", title="Null or Non-Finite %"),
+                        alt.Tooltip(f"{pcts}:Q", title="Null or Non-Finite %"),
                     ],
                 )
             )
-- 
2.43.0

