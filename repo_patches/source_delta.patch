From 123b9ba3be3f28249471b932d0cfeca1aafad26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 01/29] fix: count both new leaves of a missing-branch split
 towards max_leaves

MissingBranchSplitter defined new_leaves_added as an inherent method, so the
Splitter trait's default of one was used while growing the tree and trees
could exceed max_leaves.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From 0c86529c6fbb7223e84fb968044b9e4752140a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 02/29] fix: apply monotone bounds to splits on unconstrained
 features too

The bounds a monotone split hands to its subtrees were ignored when a
descendant split on a feature without a constraint, so predictions could
violate the constraint, and with force_children_to_bound_parent training
aborted on the bounds assertion.
---
 src/splitter.rs | 10 +---------
 src/utils.rs    | 22 ++++++++--------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..00d58cd 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -356,7 +356,7 @@ impl Splitter for MissingBranchSplitter {
         lower_bound: f32,
         upper_bound: f32,
         parent_weight: f32,
-        constraint: Option<&Constraint>,
+        _constraint: Option<&Constraint>,
     ) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
         // If there is no info right, or there is no
         // info left, there is nothing to split on,
@@ -375,7 +375,6 @@ impl Splitter for MissingBranchSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -385,7 +384,6 @@ impl Splitter for MissingBranchSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         if self.force_children_to_bound_parent {
@@ -418,7 +416,6 @@ impl Splitter for MissingBranchSplitter {
                 missing_hessian + left_hessian + right_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             ),
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
@@ -440,7 +437,6 @@ impl Splitter for MissingBranchSplitter {
                         missing_hessian,
                         lower_bound,
                         upper_bound,
-                        constraint,
                     )
                 }
             }
@@ -821,7 +817,6 @@ impl Splitter for MissingImputerSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -831,7 +826,6 @@ impl Splitter for MissingImputerSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         let mut left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
@@ -863,7 +857,6 @@ impl Splitter for MissingImputerSplitter {
                 left_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain if missing went left
             let missing_left_gain = gain_given_weight(
@@ -889,7 +882,6 @@ impl Splitter for MissingImputerSplitter {
                 right_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain is missing went right
             let missing_right_gain = gain_given_weight(
diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..0803c33 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,8 +108,8 @@ pub fn is_missing(value: &f64, missing: &f64) -> bool {
     }
 }
 
-/// Calculate the constraint weight given bounds
-/// and a constraint.
+/// Calculate the weight of a node, held within the bounds that
+/// the monotone constraints of the splits above it impose.
 #[allow(clippy::too_many_arguments)]
 #[inline]
 pub fn constrained_weight(
@@ -120,20 +120,14 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 8c1fb4b15a757b9cd23d1663df3fcddb30e64399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 03/29] fix: missing records whose gradients cancel get their
 own optimum

With missing_node_treatment None a missing branch that holds records was
treated as empty when their gradients summed to exactly zero, and was given
the parent's weight instead of its own.
---
 src/splitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 00d58cd..bc33760 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -426,7 +426,7 @@ impl Splitter for MissingBranchSplitter {
             MissingNodeTreatment::None => {
                 // If there are no missing records, just default
                 // to the parent weight.
-                if missing_hessian == 0. || missing_gradient == 0. {
+                if missing_hessian == 0. {
                     parent_weight
                 } else {
                     constrained_weight(
-- 
2.43.0


From 2067510fa85086f8881ca83a59bda9ccfa00dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 04/29] fix: find splits of missing from non-missing records
 when l2 is zero

An empty left side has a NaN gain when l2 is zero, so the missing records
were always sent right and the split was discarded.
---
 src/splitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index bc33760..066ec0d 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -898,7 +898,11 @@ impl Splitter for MissingImputerSplitter {
                 constraint,
             );
 
-            if (missing_right_gain - right_gain) < (missing_left_gain - left_gain) {
+            // A side without records has no gain to begin with, if l2 is zero
+            // it is calculated as NaN.
+            let right_only_gain = if right_gain.is_nan() { 0.0 } else { right_gain };
+            let left_only_gain = if left_gain.is_nan() { 0.0 } else { left_gain };
+            if (missing_right_gain - right_only_gain) < (missing_left_gain - left_only_gain) {
                 // Missing goes left
                 left_gradient += missing_gradient;
                 left_hessian += missing_hessian;
-- 
2.43.0


From 4758a835c1af3f1e9a2dd1e4f38728c07c76123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:59 +0000
Subject: [PATCH 05/29] fix: empty missing branches take the parent's weight
 despite rounding

With missing_node_treatment None, a missing branch without any record got a
weight calculated from the rounding residue of the histogram subtraction,
an arbitrary value if l2 is zero.
---
 src/splitter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/splitter.rs b/src/splitter.rs
index 066ec0d..59751d2 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -570,6 +570,11 @@ impl Splitter for MissingBranchSplitter {
             // If there are no missing records, we know the missing value
             // will be a leaf, assign this node as a leaf.
             missing_is_leaf = true;
+            // Rounding in the histograms can make it look as if there were
+            // missing records, the weight should still be the parent's.
+            if let MissingNodeTreatment::None = self.missing_node_treatment {
+                missing_info.weight = node.weight_value;
+            }
             if max_ == 1 {
                 missing_histograms = HistogramMatrix::empty();
                 right_histograms = HistogramMatrix::new(
-- 
2.43.0


From c81b2e0d18f43563af169aef2f38829b567dd074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:18 +0000
Subject: [PATCH 06/29] fix: do not abort training when a side of a candidate
 split is empty

With force_children_to_bound_parent, rounding in the histograms can leave a
gradient of almost zero in a side without records. With an l2 of zero its
weight is NaN, and the bounds assertion aborted the fit.
---
 src/splitter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index 59751d2..6cc1bed 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -388,8 +388,13 @@ impl Splitter for MissingBranchSplitter {
 
         if self.force_children_to_bound_parent {
             (left_weight, right_weight) = bound_to_parent(parent_weight, left_weight, right_weight);
-            assert!(between(lower_bound, upper_bound, left_weight));
-            assert!(between(lower_bound, upper_bound, right_weight));
+            // A side without records can have a weight of NaN if l2 is zero, this
+            // can't be split on.
+            if !between(lower_bound, upper_bound, left_weight)
+                || !between(lower_bound, upper_bound, right_weight)
+            {
+                return None;
+            }
         }
 
         let left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
-- 
2.43.0


From b0ebc98b789cdd3a62346d2cd12632404d839df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 07/29] fix: load saved models that contain NaN or infinite
 values

JSON has no NaN or infinity, they were written as null, so that a model with
an undefined evaluation metric (AUC of an evaluation set with a single
class), an infinite base score or an infinite parameter could be saved but
never loaded again, and an infinite missing value came back as NaN.
---
 src/data.rs            | 105 +++++++++++++++++++++++++++++++++++++++++
 src/gradientbooster.rs |  29 ++++++------
 src/node.rs            |   6 ++-
 3 files changed, 124 insertions(+), 16 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 3d1680f..f85c7eb 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -85,6 +85,106 @@ impl FloatData<f32> for f32 {
     }
 }
 
+/// JSON is not able to represent values that are NaN or infinite. Write NaN as null,
+/// and infinite values as a string, so that every value can be read back in.
+pub mod float_json {
+    use super::FloatData;
+    use serde::de::{Deserialize, Deserializer, Error, Visitor};
+    use serde::ser::{Serialize, Serializer};
+    use std::fmt;
+    use std::marker::PhantomData;
+    use std::str::FromStr;
+
+    pub fn serialize<T, S>(v: &T, s: S) -> Result<S::Ok, S::Error>
+    where
+        T: FloatData<T> + Serialize,
+        S: Serializer,
+    {
+        if v.is_nan() {
+            s.serialize_none()
+        } else if *v == T::INFINITY {
+            s.serialize_str("inf")
+        } else if *v == -T::INFINITY {
+            s.serialize_str("-inf")
+        } else {
+            v.serialize(s)
+        }
+    }
+
+    pub fn deserialize<'de, T, D>(d: D) -> Result<T, D::Error>
+    where
+        T: FloatData<T> + FromStr,
+        D: Deserializer<'de>,
+    {
+        d.deserialize_any(FloatVisitor(PhantomData))
+    }
+
+    struct FloatVisitor<T>(PhantomData<T>);
+
+    impl<'de, T: FloatData<T> + FromStr> Visitor<'de> for FloatVisitor<T> {
+        type Value = T;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a number, null, \"inf\" or \"-inf\"")
+        }
+        fn visit_f64<E: Error>(self, v: f64) -> Result<T, E> {
+            // Parse the value, rather than casting it, because otherwise f32
+            // values would be rounded twice.
+            format!("{:e}", v)
+                .parse()
+                .map_err(|_| E::custom(format!("invalid number {}", v)))
+        }
+        fn visit_u64<E: Error>(self, v: u64) -> Result<T, E> {
+            self.visit_f64(v as f64)
+        }
+        fn visit_i64<E: Error>(self, v: i64) -> Result<T, E> {
+            self.visit_f64(v as f64)
+        }
+        fn visit_unit<E: Error>(self) -> Result<T, E> {
+            Ok(T::NAN)
+        }
+        fn visit_str<E: Error>(self, v: &str) -> Result<T, E> {
+            match v {
+                "inf" => Ok(T::INFINITY),
+                "-inf" => Ok(-T::INFINITY),
+                _ => Err(E::custom(format!("invalid number \"{}\"", v))),
+            }
+        }
+    }
+
+    /// The same for a vector of values.
+    pub mod vec {
+        use super::*;
+
+        struct Float<T>(T);
+        impl<T: FloatData<T> + Serialize> Serialize for Float<T> {
+            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
+                super::serialize(&self.0, s)
+            }
+        }
+        impl<'de, T: FloatData<T> + FromStr> Deserialize<'de> for Float<T> {
+            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
+                super::deserialize(d).map(Float)
+            }
+        }
+        pub fn serialize<T, S>(v: &[T], s: S) -> Result<S::Ok, S::Error>
+        where
+            T: FloatData<T> + Serialize,
+            S: Serializer,
+        {
+            s.collect_seq(v.iter().map(|i| Float(*i)))
+        }
+        pub fn deserialize<'de, T, D>(d: D) -> Result<Vec<T>, D::Error>
+        where
+            T: FloatData<T> + FromStr,
+            D: Deserializer<'de>,
+        {
+            let v: Vec<Float<T>> = Deserialize::deserialize(d)?;
+            Ok(v.into_iter().map(|i| i.0).collect())
+        }
+    }
+}
+
 /// Contigious Column major matrix data container. This is
 /// used throughout the crate, to house both the user provided data
 /// as well as the binned data.
@@ -168,7 +268,12 @@ where
 /// user, the added benefit is it will be even
 /// faster to return to numpy.
 #[derive(Debug, Serialize, Deserialize)]
+#[serde(bound(
+    serialize = "T: FloatData<T> + Serialize",
+    deserialize = "T: FloatData<T> + FromStr"
+))]
 pub struct RowMajorMatrix<T> {
+    #[serde(with = "float_json::vec")]
     pub data: Vec<T>,
     pub rows: usize,
     pub cols: usize,
diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..86ae754 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -1,6 +1,6 @@
 use crate::binning::bin_matrix;
 use crate::constraints::ConstraintMap;
-use crate::data::{Matrix, RowMajorMatrix};
+use crate::data::{float_json, Matrix, RowMajorMatrix};
 use crate::errors::ForustError;
 use crate::metric::{is_comparison_better, metric_callables, Metric, MetricFn};
 use crate::objective::{
@@ -20,7 +20,7 @@ use rand::rngs::StdRng;
 use rand::seq::IteratorRandom;
 use rand::SeedableRng;
 use rayon::prelude::*;
-use serde::{Deserialize, Deserializer, Serialize};
+use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::fs;
 
@@ -91,6 +91,7 @@ pub struct GradientBooster {
     /// Step size to use at each iteration. Each
     /// leaf weight is multiplied by this number. The smaller the value, the more
     /// conservative the weights will be.
+    #[serde(with = "float_json")]
     pub learning_rate: f32,
     /// Maximum depth of an individual tree. Valid values are 0 to infinity.
     pub max_depth: usize,
@@ -99,21 +100,25 @@ pub struct GradientBooster {
     pub max_leaves: usize,
     /// L1 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity. 0 Means no regularization applied.
-    #[serde(default = "default_l1")]
+    #[serde(default = "default_l1", with = "float_json")]
     pub l1: f32,
     /// L2 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity.
+    #[serde(with = "float_json")]
     pub l2: f32,
     /// The minimum amount of loss required to further split a node.
     /// Valid values are 0 to infinity.
+    #[serde(with = "float_json")]
     pub gamma: f32,
     /// Maximum delta step allowed at each leaf. This is the maximum magnitude a leaf can take. Setting to 0 results in no constrain.
-    #[serde(default = "default_max_delta_step")]
+    #[serde(default = "default_max_delta_step", with = "float_json")]
     pub max_delta_step: f32,
     /// Minimum sum of the hessian values of the loss function
     /// required to be in a node.
+    #[serde(with = "float_json")]
     pub min_leaf_weight: f32,
     /// The initial prediction value of the model.
+    #[serde(with = "float_json")]
     pub base_score: f64,
     /// Number of bins to calculate to partition the data. Setting this to
     /// a smaller number, will result in faster training time, while potentially sacrificing
@@ -129,20 +134,21 @@ pub struct GradientBooster {
     /// between the training features and the target variable.
     pub monotone_constraints: Option<ConstraintMap>,
     /// Percent of records to randomly sample at each iteration when training a tree.
+    #[serde(with = "float_json")]
     pub subsample: f32,
     /// Used only in goss. The retain ratio of large gradient data.
-    #[serde(default = "default_top_rate")]
+    #[serde(default = "default_top_rate", with = "float_json")]
     pub top_rate: f64,
     /// Used only in goss. the retain ratio of small gradient data.
-    #[serde(default = "default_other_rate")]
+    #[serde(default = "default_other_rate", with = "float_json")]
     pub other_rate: f64,
     /// Specify the fraction of columns that should be sampled at each iteration, valid values are in the range (0.0,1.0].
-    #[serde(default = "default_colsample_bytree")]
+    #[serde(default = "default_colsample_bytree", with = "float_json")]
     pub colsample_bytree: f64,
     /// Integer value used to seed any randomness used in the algorithm.
     pub seed: u64,
     /// Value to consider missing.
-    #[serde(deserialize_with = "parse_missing")]
+    #[serde(with = "float_json")]
     pub missing: f64,
     /// Should missing be split out it's own separate branch?
     pub create_missing_branch: bool,
@@ -247,13 +253,6 @@ fn default_force_children_to_bound_parent() -> bool {
     false
 }
 
-fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
-}
-
 impl Default for GradientBooster {
     fn default() -> Self {
         Self::new(
diff --git a/src/node.rs b/src/node.rs
index fbcd2a4..e427415 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -1,4 +1,4 @@
-use crate::data::FloatData;
+use crate::data::{float_json, FloatData};
 use crate::histogram::HistogramMatrix;
 use crate::splitter::{MissingInfo, NodeInfo, SplitInfo};
 use crate::utils::is_missing;
@@ -32,11 +32,15 @@ pub struct SplittableNode {
 #[derive(Deserialize, Serialize)]
 pub struct Node {
     pub num: usize,
+    #[serde(with = "float_json")]
     pub weight_value: f32,
+    #[serde(with = "float_json")]
     pub hessian_sum: f32,
     pub depth: usize,
+    #[serde(with = "float_json")]
     pub split_value: f64,
     pub split_feature: usize,
+    #[serde(with = "float_json")]
     pub split_gain: f32,
     pub missing_node: usize,
     pub left_child: usize,
-- 
2.43.0


From a2911ab675584bd17a873fc327c1f77f29bf5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 08/29] fix: log loss of confident predictions is finite

For scores above about 37 the probability rounds to one, and the metric
became NaN for correct and infinite for wrong predictions.
---
 src/metric.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metric.rs b/src/metric.rs
index 45f61cb..3e8fae7 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -131,8 +131,9 @@ pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
         .zip(sample_weight)
         .map(|((y_, yhat_), w_)| {
             w_sum += *w_;
-            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
+            // Written in terms of the log odds, so that confident predictions don't
+            // lead to the log of zero.
+            (yhat_.max(f64::ZERO) - *y_ * *yhat_ + (-yhat_.abs()).exp().ln_1p()) * *w_
         })
         .sum::<f64>();
     res / w_sum
-- 
2.43.0


From 4aabf960ef21d2b4e5abc8fd31d16dd853cd5928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 09/29] fix: forget the prediction iteration of an unfit
 booster when fitting

A prediction iteration set before the first fit survived it, so that only
part of the trees were used, or predicting aborted, unlike after a refit.
---
 src/gradientbooster.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 86ae754..83bbc4f 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -533,11 +533,10 @@ impl GradientBooster {
         splitter: &T,
         evaluation_data: Option<Vec<EvaluationData>>,
     ) -> Result<(), ForustError> {
-        // Is this a booster that has already been fit? If it is, reset the trees.
+        // This might be a booster that has already been fit, reset the trees, as well
+        // as the iteration to predict with.
         // In the future we could continue training.
-        if !self.trees.is_empty() {
-            self.reset()
-        }
+        self.reset();
 
         let mut rng = StdRng::seed_from_u64(self.seed);
 
-- 
2.43.0


From 9b9e78f2ff1b4df1c689e3f68aa5a7817423097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 10/29] fix: a feature with 65536 distinct values no longer
 overflows the 16-bit bins when nbins is 65535

---
 src/binning.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index 6ae1d91..350f1ba 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -15,7 +15,8 @@ where
     let mut v_u = v.to_owned();
     v_u.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     v_u.dedup();
-    if v_u.len() <= pcts.len() + 1 {
+    // Bin 0 is reserved for missing, so only `u16::MAX` values can have a bin of their own.
+    if v_u.len() <= (pcts.len() + 1).min(u16::MAX as usize) {
         v_u
     } else {
         percentiles(v, sample_weight, pcts)
-- 
2.43.0


From 5eb455a55dfdc971a242ca12f07e0cc4e4c52cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 11/29] fix: load_booster restores partial monotone constraints
 and terminate_missing_features by name

---
 py-forust/forust/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..3d2a4f7 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -976,7 +976,11 @@ class GradientBooster:
                         c.monotone_constraints = {
                             ft: c.monotone_constraints[i]
                             for i, ft in enumerate(c.feature_names_in_)
+                            if i in c.monotone_constraints
                         }
+                    c.terminate_missing_features = {
+                        c.feature_names_in_[i] for i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From bf482b540f07a5261737f667e8462026384d926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 12/29] fix: accept targets and weights that are not contiguous
 in memory

---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 3d2a4f7..8f5b404 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -272,7 +272,7 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x
     if not np.issubdtype(x_.dtype, "float64"):
         x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    return np.ascontiguousarray(x_)
 
 
 class GradientBooster:
-- 
2.43.0


From 5cf6c3dc03726ec4da701b2728c51a03b6d6f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 13/29] fix: partial dependence of boolean and object columns

---
 py-forust/forust/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 8f5b404..1c799b2 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -860,6 +860,7 @@ class GradientBooster:
                 f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed."
             )
         min_p, max_p = percentile_bounds
+        values = values.astype("float64")
         values = values[~(np.isnan(values) | (values == self.missing))]
         if samples is None:
             search_values = np.sort(np.unique(values))
-- 
2.43.0


From e3105fff2d731b944d6bca0cef46a48e3b0c4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 14/29] fix: feature names describe the data of the last
 successful fit

---
 py-forust/forust/__init__.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 1c799b2..d70e9c8 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -575,11 +575,6 @@ class GradientBooster:
         """
 
         features_, flat_data, rows, cols = _convert_input_frame(X)
-        self.n_features_ = cols
-        self._set_metadata_attributes("n_features_", self.n_features_)
-        if len(features_) > 0:
-            self.feature_names_in_ = features_
-            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
 
         y_ = _convert_input_array(y)
 
@@ -606,10 +601,10 @@ class GradientBooster:
                     eval_X, eval_y = eval_  # type: ignore
                     eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
 
-                features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(
-                    eval_X
+                eval_features_, eval_flat_data, eval_rows, eval_cols = (
+                    _convert_input_frame(eval_X)
                 )
-                self._validate_features(features_)
+                self._validate_features(eval_features_, fit_features=features_)
                 evaluation_data_.append(
                     (
                         eval_flat_data,
@@ -635,14 +630,29 @@ class GradientBooster:
             evaluation_data=evaluation_data_,  # type: ignore
         )
 
+        # Only now that the fit succeeded, does this data describe the model.
+        self.n_features_ = cols
+        self._set_metadata_attributes("n_features_", self.n_features_)
+        if len(features_) > 0:
+            self.feature_names_in_ = features_
+            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # The names of an earlier fit, don't apply to this data.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
+
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
         self.base_score = self.booster.base_score
         return self
 
-    def _validate_features(self, features: list[str]):
-        if len(features) > 0 and hasattr(self, "feature_names_in_"):
-            if features != self.feature_names_in_:
+    def _validate_features(
+        self, features: list[str], fit_features: list[str] | None = None
+    ):
+        if fit_features is None:
+            fit_features = getattr(self, "feature_names_in_", [])
+        if len(features) > 0 and len(fit_features) > 0:
+            if features != fit_features:
                 raise ValueError(
                     "Columns mismatch between data passed, and data used at fit."
                 )
@@ -967,6 +977,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m_ is None:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From 1084cbe76802c06c1204a0ab4b84210e74677229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 15/29] fix: ScalerSerializer restores strings with any
 characters and non-finite floats

---
 py-forust/forust/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/serialize.py b/py-forust/forust/serialize.py
index 03f4d6e..985e037 100644
--- a/py-forust/forust/serialize.py
+++ b/py-forust/forust/serialize.py
@@ -28,12 +28,14 @@ Scaler = Union[int, float, str]
 class ScalerSerializer(BaseSerializer[Scaler]):
     def serialize(self, obj: Scaler) -> str:
         if isinstance(obj, str):
-            obj_ = f"'{obj}'"
+            obj_ = ascii(str(obj))
         else:
             obj_ = str(obj)
         return obj_
 
     def deserialize(self, obj_repr: str) -> Scaler:
+        if obj_repr in ("nan", "inf", "-inf"):
+            return float(obj_repr)
         return literal_eval(node_or_string=obj_repr)
 
 
-- 
2.43.0


From 6e4b16799e6dbb7ad29ce6c9e1ac195dee1d16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 16/29] fix: node lists report non-finite values as floats

---
 py-forust/forust/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index d70e9c8..e013d89 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -1206,6 +1206,9 @@ class GradientBooster:
         for t in model:
             tree = []
             for n in t["nodes"]:
+                # Non-finite values are not stored as numbers in the json.
+                for k in ("weight_value", "hessian_sum", "split_value", "split_gain"):
+                    n[k] = float("nan") if n[k] is None else float(n[k])
                 if not n["is_leaf"]:
                     n["split_feature"] = feature_map[n["split_feature"]]
                 else:
-- 
2.43.0


From e62ef367d18d9f9d456d178f131cd64d514b0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:49 +0000
Subject: [PATCH 17/29] fix: a rejected fit leaves the booster's feature
 options unchanged

---
 py-forust/forust/__init__.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index e013d89..614ace8 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -585,10 +585,7 @@ class GradientBooster:
         # Convert the monotone constraints into the form needed
         # by the rust code.
         monotone_constraints_ = self._standardize_monotonicity_map(X)
-        self.booster.monotone_constraints = monotone_constraints_
-        self.booster.terminate_missing_features = (
-            self._standardize_terminate_missing_features(X)
-        )
+        terminate_missing_features_ = self._standardize_terminate_missing_features(X)
 
         # Create evaluation data
         if evaluation_data is not None:
@@ -621,14 +618,23 @@ class GradientBooster:
         else:
             evaluation_data_ = None
 
-        self.booster.fit(
-            flat_data=flat_data,
-            rows=rows,
-            cols=cols,
-            y=y_,
-            sample_weight=sample_weight_,
-            evaluation_data=evaluation_data_,  # type: ignore
-        )
+        prior_params = self.booster.get_params()
+        try:
+            self.booster.monotone_constraints = monotone_constraints_
+            self.booster.terminate_missing_features = terminate_missing_features_
+            self.booster.fit(
+                flat_data=flat_data,
+                rows=rows,
+                cols=cols,
+                y=y_,
+                sample_weight=sample_weight_,
+                evaluation_data=evaluation_data_,  # type: ignore
+            )
+        except Exception:
+            # A rejected fit, leaves the booster as it was.
+            for k in ("monotone_constraints", "terminate_missing_features"):
+                setattr(self.booster, k, prior_params[k])
+            raise
 
         # Only now that the fit succeeded, does this data describe the model.
         self.n_features_ = cols
-- 
2.43.0


From 137c5314ab07f7f9ac736180b4ac2a880074074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:31 +0000
Subject: [PATCH 18/29] fix: import an XGBoost Booster object, not only its
 scikit-learn estimators

_from_xgboost_model accepts a Booster, but then called get_booster() on it.
---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 614ace8..38d877b 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -133,7 +133,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     # because the base score is modified prior to predictions.
     # We would need to modify prior to handing it to the forust
     # model.
-    learner_config = json.loads(model.get_booster().save_config())["learner"]
+    learner_config = json.loads(booster.save_config())["learner"]
     base_score = float(learner_config["learner_model_param"]["base_score"])
     if learner_config["objective"]["name"] == "binary:logistic":
         base_score = np.log(base_score / (1 - base_score))
-- 
2.43.0


From 812897bba69d5a7724e668e7e6ed1345c1fda111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:31 +0000
Subject: [PATCH 19/29] fix: keep the features of XGBoost models trained
 without feature names

Every split was imported as a split on the first feature.
---
 py-forust/forust/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 38d877b..0e7581b 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -119,7 +119,8 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
     if features is None:
-        feature_map = {}
+        # Without names, the dump refers to the features by position.
+        feature_map = {f"f{i}": i for i in range(booster.num_features())}
     else:
         feature_map = {v: i for i, v in enumerate(features)}
 
@@ -148,7 +149,7 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
     final_model.booster = CrateGradientBooster.from_json(json.dumps(model_json))
     if features is not None:
         final_model.feature_names_in_ = features
-        final_model.n_features_ = len(features)
+    final_model.n_features_ = len(feature_map)
     return final_model
 
 
-- 
2.43.0


From 21a8f00d0e1980755c7513f6d1488b2e6ccdf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:31 +0000
Subject: [PATCH 20/29] fix: import the thresholds of boolean and integer
 features of XGBoost models

The dump of a model with feature types has no threshold for boolean features, so
all their records went to one side.
---
 py-forust/forust/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 0e7581b..f36590d 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -115,7 +115,10 @@ def _from_xgboost_model(model: Any) -> GradientBooster:
         booster = model.get_booster()
     else:
         booster = cast(xgboost.Booster, model)
-    # Get the model dump...
+    # Get the model dump. With feature types the dump leaves out the thresholds of
+    # boolean features, and rounds those of integer features.
+    booster = booster.copy()
+    booster.feature_types = None
     model_dump = booster.get_dump(dump_format="json", with_stats=True)
     features = booster.feature_names
     if features is None:
-- 
2.43.0


From f6c22b03f05323bd4290c7a8598a072da5c61f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 21/29] fix: route double precision values as XGBoost does in
 imported models

---
 py-forust/forust/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index f36590d..4ed5496 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -71,7 +71,7 @@ class Node:
             weight_value=xgb_node.get("leaf", 0.0),
             hessian_sum=xgb_node["cover"],
             depth=xgb_node.get("depth", 0),
-            split_value=float(np.float32(xgb_node.get("split_condition", 0.0))),
+            split_value=_xgboost_split_value(xgb_node.get("split_condition", 0.0)),
             split_feature=feature_map.get(xgb_node.get("split", 0), 0),
             split_gain=xgb_node.get("gain", 0.0),
             missing_node=xgb_node.get("missing", 0),
@@ -81,6 +81,17 @@ class Node:
         )
 
 
+def _xgboost_split_value(split_condition: float) -> float:
+    # XGBoost rounds the data to single precision, before it is compared to the split
+    # condition. Find the smallest value, that is not rounded to something below it.
+    upper = np.float32(split_condition)
+    lower = np.nextafter(upper, np.float32(-np.inf))
+    split_value = (float(lower) + float(upper)) / 2
+    if np.float32(split_value) < upper:
+        split_value = np.nextafter(split_value, np.inf)
+    return float(split_value)
+
+
 def _xgboost_tree_to_nodes(
     tree: dict[str, Any], feature_map: dict[Any, int]
 ) -> list[dict[str, Any]]:
-- 
2.43.0


From 39a0f86d3b8c831d595ecd91aaffa976d50baa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:48 +0000
Subject: [PATCH 22/29] fix: a fit refused for NaN in the data leaves the
 booster as it was

---
 src/gradientbooster.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 83bbc4f..64e77f3 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -451,6 +451,17 @@ impl GradientBooster {
                 )?;
             }
         }
+        // NaN is only allowed if it is the missing value, check this here, so that the
+        // booster is left as it is if the data can't be used.
+        if !self.missing.is_nan() {
+            let eval_data = evaluation_data.iter().flatten().map(|(d, _, _)| d);
+            if std::iter::once(data)
+                .chain(eval_data)
+                .any(|d| d.data.iter().any(|v| v.is_nan()))
+            {
+                return Err(ForustError::NANVAlueFound(self.missing));
+            }
+        }
 
         let constraints_map = self
             .monotone_constraints
-- 
2.43.0


From e80e1a28de6fe07815aa6c235984398f1a2e6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:09 +0000
Subject: [PATCH 23/29] fix: a side without records is never split on

The sums of an empty side, missing bin or right hand remainder are differences
of rounded sums, so they can come out as tiny values instead of zero. With a
min_leaf_weight of zero such a side looked like it had records: splits with an
empty child were made (and preferred over real ones if l2 is zero), and the
records of the node were then partitioned wrongly, giving nodes with covers and
weights of other records. Count the records of each bin, so that an empty side
is known to be empty.
---
 src/histogram.rs |  8 ++++++++
 src/splitter.rs  | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/histogram.rs b/src/histogram.rs
index bf1080f..dd7e727 100644
--- a/src/histogram.rs
+++ b/src/histogram.rs
@@ -13,6 +13,8 @@ pub struct Bin<T> {
     /// the split value for non-binned values.
     /// This value will be missing for the missing bin.
     pub cut_value: f64,
+    /// The number of records in this bin, that have a gradient or hessian.
+    pub count: u32,
 }
 
 impl Bin<f32> {
@@ -21,6 +23,7 @@ impl Bin<f32> {
             gradient_sum: f32::ZERO,
             hessian_sum: f32::ZERO,
             cut_value,
+            count: 0,
         }
     }
 
@@ -31,6 +34,7 @@ impl Bin<f32> {
             gradient_sum: root_bin.gradient_sum - child_bin.gradient_sum,
             hessian_sum: root_bin.hessian_sum - child_bin.hessian_sum,
             cut_value: root_bin.cut_value,
+            count: root_bin.count - child_bin.count,
         }
     }
 
@@ -47,6 +51,7 @@ impl Bin<f32> {
             hessian_sum: root_bin.hessian_sum
                 - (first_child_bin.hessian_sum + second_child_bin.hessian_sum),
             cut_value: root_bin.cut_value,
+            count: root_bin.count - (first_child_bin.count + second_child_bin.count),
         }
     }
 }
@@ -57,6 +62,7 @@ impl Bin<f64> {
             gradient_sum: f64::ZERO,
             hessian_sum: f64::ZERO,
             cut_value,
+            count: 0,
         }
     }
 
@@ -65,6 +71,7 @@ impl Bin<f64> {
             gradient_sum: self.gradient_sum as f32,
             hessian_sum: self.hessian_sum as f32,
             cut_value: self.cut_value,
+            count: self.count,
         }
     }
 }
@@ -101,6 +108,7 @@ pub fn create_feature_histogram(
             if let Some(v) = histogram.get_mut(feature[*i] as usize) {
                 v.gradient_sum += f64::from(*g);
                 v.hessian_sum += f64::from(*h);
+                v.count += u32::from(*g != 0.0 || *h != 0.0);
             }
         });
     histogram.iter().map(|b| b.as_f32_bin()).collect()
diff --git a/src/splitter.rs b/src/splitter.rs
index 6cc1bed..cc4cb33 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -117,26 +117,44 @@ pub trait Splitter {
         let missing = &histogram[0];
         let mut cuml_grad = 0.0; // first_bin.gradient_sum;
         let mut cuml_hess = 0.0; // first_bin.hessian_sum;
+
+        // Without any records the sums are only rounding errors, that must not look
+        // as if there was something to split on.
+        let sums = |count: u32, grad: f32, hess: f32| {
+            if count == 0 {
+                (0.0, 0.0)
+            } else {
+                (grad, hess)
+            }
+        };
+        let mut left_count = 0;
+        let mut right_count: u32 = histogram[1..].iter().map(|b| b.count).sum();
+        let (missing_gradient, missing_hessian) =
+            sums(missing.count, missing.gradient_sum, missing.hessian_sum);
         let constraint = self.get_constraint(&feature);
 
         let elements = histogram.len();
         assert!(elements == histogram.len());
 
         for (i, bin) in histogram[1..].iter().enumerate() {
-            let left_gradient = cuml_grad;
-            let left_hessian = cuml_hess;
-            let right_gradient = node.gradient_sum - cuml_grad - missing.gradient_sum;
-            let right_hessian = node.hessian_sum - cuml_hess - missing.hessian_sum;
+            let (left_gradient, left_hessian) = sums(left_count, cuml_grad, cuml_hess);
+            let (right_gradient, right_hessian) = sums(
+                right_count,
+                node.gradient_sum - cuml_grad - missing.gradient_sum,
+                node.hessian_sum - cuml_hess - missing.hessian_sum,
+            );
             cuml_grad += bin.gradient_sum;
             cuml_hess += bin.hessian_sum;
+            left_count += bin.count;
+            right_count -= bin.count;
 
             let (mut left_node_info, mut right_node_info, missing_info) = match self.evaluate_split(
                 left_gradient,
                 left_hessian,
                 right_gradient,
                 right_hessian,
-                missing.gradient_sum,
-                missing.hessian_sum,
+                missing_gradient,
+                missing_hessian,
                 node.lower_bound,
                 node.upper_bound,
                 node.weight_value,
@@ -929,6 +947,13 @@ impl Splitter for MissingImputerSplitter {
             }
         }
 
+        // If either side is still without any info, there is nothing to split on.
+        if (left_gradient == 0.0) && (left_hessian == 0.0)
+            || (right_gradient == 0.0) && (right_hessian == 0.0)
+        {
+            return None;
+        }
+
         if (right_hessian < self.min_leaf_weight) || (left_hessian < self.min_leaf_weight) {
             // Update for new value
             return None;
-- 
2.43.0


From 8ec8b3864072758a1351fa3b555fba700d03b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:31 +0000
Subject: [PATCH 24/29] fix: a top_rate above one keeps every record instead of
 aborting

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index a1dd21c..1453397 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -83,7 +83,7 @@ impl Sampler for GossSampler {
         hess: &mut [f32],
     ) -> (Vec<usize>, Vec<usize>) {
         let fact = ((1. - self.a) / self.b) as f32;
-        let top_n = (self.a * index.len() as f64) as usize;
+        let top_n = ((self.a * index.len() as f64) as usize).min(index.len());
         let rand_n = (self.b * index.len() as f64) as usize;
 
         // sort gradient by absolute value from highest to lowest
-- 
2.43.0


From caaf0a53459271f0f768d14682d9037c38841ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:31 +0000
Subject: [PATCH 25/29] fix: a large colsample_bytree keeps every column
 instead of aborting

---
 src/gradientbooster.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 64e77f3..6394a6e 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -597,6 +597,7 @@ impl GradientBooster {
                 Vec::new()
             } else {
                 let amount = ((col_index.len() as f64) * self.colsample_bytree).floor() as usize;
+                let amount = amount.min(col_index.len());
                 let mut v: Vec<usize> = col_index
                     .iter()
                     .choose_multiple(&mut rng, amount)
-- 
2.43.0


From b34d9bb887dec12acee16c002be90dab756be66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:31 +0000
Subject: [PATCH 26/29] fix: fitting with no bins is an error instead of an
 abort

---
 src/gradientbooster.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 6394a6e..eafb71a 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -451,6 +451,13 @@ impl GradientBooster {
                 )?;
             }
         }
+        if self.nbins == 0 {
+            return Err(ForustError::InvalidParameter(
+                "nbins".to_string(),
+                "at least one bin".to_string(),
+                self.nbins.to_string(),
+            ));
+        }
         // NaN is only allowed if it is the missing value, check this here, so that the
         // booster is left as it is if the data can't be used.
         if !self.missing.is_nan() {
-- 
2.43.0


From 5930c90028749652aca196d32f99f5e4e9ab787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:51 +0000
Subject: [PATCH 27/29] fix: targets, weights or evaluation data of the wrong
 size are refused

---
 src/gradientbooster.rs | 19 +++++++++++++++++--
 src/utils.rs           | 12 ++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index eafb71a..8a5f34d 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -12,7 +12,7 @@ use crate::shapley::predict_contributions_row_shapley;
 use crate::splitter::{MissingBranchSplitter, MissingImputerSplitter, Splitter};
 use crate::tree::Tree;
 use crate::utils::{
-    fmt_vec_output, odds, validate_not_nan_vec, validate_positive_float_field,
+    fmt_vec_output, odds, validate_length, validate_not_nan_vec, validate_positive_float_field,
     validate_positive_not_nan_vec,
 };
 use log::info;
@@ -440,10 +440,25 @@ impl GradientBooster {
         evaluation_data: Option<Vec<EvaluationData>>,
     ) -> Result<(), ForustError> {
         // Validate inputs
+        validate_length(y, data.rows, "y")?;
+        validate_length(sample_weight, data.rows, "sample_weight")?;
         validate_not_nan_vec(y, "y".to_string())?;
         validate_positive_not_nan_vec(sample_weight, "sample_weight".to_string())?;
         if let Some(eval_data) = &evaluation_data {
-            for (i, (_, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
+            for (i, (eval_d, eval_y, eval_sample_weight)) in eval_data.iter().enumerate() {
+                if eval_d.cols < data.cols {
+                    return Err(ForustError::InvalidParameter(
+                        format!("eval set {}", i),
+                        format!("{} columns", data.cols),
+                        eval_d.cols.to_string(),
+                    ));
+                }
+                validate_length(eval_y, eval_d.rows, &format!("eval set {} y", i))?;
+                validate_length(
+                    eval_sample_weight,
+                    eval_d.rows,
+                    &format!("eval set {} sample_weight", i),
+                )?;
                 validate_not_nan_vec(eval_y, format!("eval set {} y", i).to_string())?;
                 validate_positive_not_nan_vec(
                     eval_sample_weight,
diff --git a/src/utils.rs b/src/utils.rs
index 0803c33..c1aabb5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -65,6 +65,18 @@ pub fn validate_not_nan_vec(v: &[f64], name: String) -> Result<(), ForustError>
     }
 }
 
+pub fn validate_length(v: &[f64], rows: usize, name: &str) -> Result<(), ForustError> {
+    if v.len() != rows {
+        Err(ForustError::InvalidParameter(
+            name.to_string(),
+            format!("{} values, one for each row of the data,", rows),
+            v.len().to_string(),
+        ))
+    } else {
+        Ok(())
+    }
+}
+
 pub fn validate_positive_vec(v: &[f64], name: String) -> Result<(), ForustError> {
     if v.iter().any(|i| i < &0.) {
         Err(ForustError::NegativeValuesFound(name))
-- 
2.43.0


From a783aabf6944c5c5b8783923ebc7e0e66083e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 28/29] fix: an empty list of evaluation sets is no evaluation
 data instead of an abort

---
 src/gradientbooster.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 8a5f34d..c82bf47 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -439,6 +439,8 @@ impl GradientBooster {
         sample_weight: &[f64],
         evaluation_data: Option<Vec<EvaluationData>>,
     ) -> Result<(), ForustError> {
+        // No evaluation sets is the same as no evaluation data.
+        let evaluation_data = evaluation_data.filter(|e| !e.is_empty());
         // Validate inputs
         validate_length(y, data.rows, "y")?;
         validate_length(sample_weight, data.rows, "sample_weight")?;
-- 
2.43.0


From 1e846474a1536b6e538a7eb0d8de6ecd4fcc75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:19 +0000
Subject: [PATCH 29/29] fix: the AUC of an empty evaluation set is undefined
 instead of an abort

---
 src/metric.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metric.rs b/src/metric.rs
index 3e8fae7..8d7b364 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -172,6 +172,10 @@ fn trapezoid_area(x0: f64, x1: f64, y0: f64, y1: f64) -> f64 {
 }
 
 pub fn roc_auc_score(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
+    // There is nothing to rank.
+    if y.is_empty() {
+        return f64::NAN;
+    }
     let mut indices = (0..y.len()).collect::<Vec<_>>();
     indices.sort_unstable_by(|&a, &b| yhat[b].total_cmp(&yhat[a]));
     let mut auc: f64 = 0.0;
-- 
2.43.0

