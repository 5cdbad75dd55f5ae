From ed116b0d1932fd7c320903a57ccd3ddaa87453be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 01/32] fix: one-versus-rest forests used the same seed for all
 the trees of a class

Trees are laid out class by class, so that np.repeat gave the same seed (same
bootstrap and same features) to trees of the same class, making them copies of each
other, instead of using the same seeds across classes, as documented.
---
 wildwood/forest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..7f5dd19 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -250,8 +250,9 @@ class ForestBase(BaseEstimator):
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
-                # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                # Trees are ordered by class (tree_idx // n_estimators is the class)
+                # np.tile(np.array([2, 1, 17, 3]), 3)
+                _random_states = np.tile(_random_states, self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From 4b216f49594a31f17b3f7048c4ded6a01644c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 02/32] fix: categorical_features given to the constructor was
 ignored by fit

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 7f5dd19..bb05a80 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -360,7 +360,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 3c11043c2334a8639d92d2bdeb5195c6657c0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 03/32] fix: invalid random_state values were silently ignored
 instead of rejected

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index bb05a80..ef47060 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -866,9 +866,11 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError(
+                    "random_state must be either None or an integer number"
+                )
 
     @property
     def verbose(self):
-- 
2.43.0


From 925c00e900c3ca8668720d9142fd81d0bb8aee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 04/32] fix: ForestRegressor.predict_trees always failed

---
 wildwood/forest.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ef47060..a0f41d2 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1695,17 +1695,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
         output : ndarray of shape (n_estimators, n_samples)
            The predicted target regression values by each tree for the input samples.
         """
-        check_is_fitted(self)
-        # Check data
-        X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
+        features_bitarray, n_jobs, lock = self._predict_helper(X)
+        n_samples = features_bitarray.n_samples
         n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
+        preds = np.empty((n_estimators, n_samples))
 
-        lock = threading.Lock()
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1713,11 +1707,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, features_bitarray, preds, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return preds
 
     @property
     def criterion(self):
-- 
2.43.0


From 92eb9e691f848d035df7bcdf202ee221008afa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 05/32] fix: regression splits on categorical features sorted
 bins by label sums

Sorting the bins by the sum of their labels (instead of their average) misses the
best partition of the bins whenever the bins have unequal weights.
---
 wildwood/_split.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..2401d58 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -885,7 +885,12 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        # Bins are sorted with respect to their average label: this is the order that
+        # contains the best partition of the bins (see Theorem 9.6 in Breiman's CART)
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From b717f22c2ff6b9c028a4d7360bd6da8ea433be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 06/32] fix: random_state was not used when subsampling rows
 for the binning

Two forests with the same random_state differed on data with more than subsample rows.
---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index a0f41d2..4f0329b 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -368,6 +368,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From 99116237b3cb18b5f92549ae56b0121679e50f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 07/32] fix: fit with class_weight modified the user's
 sample_weight array in place

---
 wildwood/forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 4f0329b..633572c 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -333,7 +333,10 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    # Not in place: sample_weight_ can be the array given by the user
+                    sample_weight_ = (sample_weight_ * expanded_class_weight).astype(
+                        np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From fa1f0226d8fa327f28d9ba14b9b17099b17fd46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 08/32] fix: aggregation weights were computed in single
 precision

With out-of-bag losses of 1e5 or more (regression with large labels, or large samples)
the logarithms of the weights lose the log(2) terms, and the weight of a node could be
0.5 or 1.36 instead of 1. Store and combine them in double precision.
---
 wildwood/_grow.py  | 23 +++++++++++++++++------
 wildwood/_node.py  |  2 +-
 wildwood/_tree.py  | 18 +++++++++---------
 wildwood/_utils.py |  4 ++--
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/wildwood/_grow.py b/wildwood/_grow.py
index c6280cc..6aa9572 100644
--- a/wildwood/_grow.py
+++ b/wildwood/_grow.py
@@ -11,7 +11,18 @@ aggregation.
 
 from math import log
 import numpy as np
-from numba import jit, from_dtype, void, boolean, intp, uintp, uint64, float32, optional
+from numba import (
+    jit,
+    from_dtype,
+    void,
+    boolean,
+    intp,
+    uintp,
+    uint64,
+    float32,
+    float64,
+    optional,
+)
 from numba.types import Tuple
 from numba.experimental import jitclass
 from ._split import find_node_split, split_indices
@@ -531,11 +542,11 @@ def grow(
     locals={
         "node_idx": intp,
         "node": node_type,
-        "loss": float32,
+        "loss": float64,
         "left_child": intp,
         "right_child": intp,
-        "log_weight_tree_left": float32,
-        "log_weight_tree_right": float32,
+        "log_weight_tree_left": float64,
+        "log_weight_tree_right": float64,
     },
 )
 def compute_tree_weights(nodes, node_count, step):
@@ -563,10 +574,10 @@ def compute_tree_weights(nodes, node_count, step):
         if node["is_leaf"]:
             # If the node is a leaf, the logarithm of its tree weight is simply
             #   step * loss
-            node["log_weight_tree"] = -step * node["loss_valid"]
+            node["log_weight_tree"] = -float64(step) * node["loss_valid"]
         else:
             # If the node is not a leaf, then we apply context tree weighting
-            loss = -step * node["loss_valid"]
+            loss = -float64(step) * node["loss_valid"]
             # TODO: pourquoi on cast ici ?
             left_child = intp(node["left_child"])
             right_child = intp(node["right_child"])
diff --git a/wildwood/_node.py b/wildwood/_node.py
index 64cbeb6..3a1658a 100644
--- a/wildwood/_node.py
+++ b/wildwood/_node.py
@@ -66,7 +66,7 @@ node_dtype = np.dtype(
         ("loss_valid", np.float32),
         #
         # Logarithm of the subtree aggregation weight
-        ("log_weight_tree", np.float32),
+        ("log_weight_tree", np.float64),
         #
         # Number of training samples in the node
         ("n_samples_train", np.uintp),
diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..86da67d 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -857,8 +857,8 @@ def tree_apply(tree, features_bitarray):
         "pred_i": float32[::1],
         "node": node_type,
         "node_pred": float32[::1],
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
@@ -909,7 +909,7 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
                 # Prediction of this node
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
-                loss = -step * node["loss_valid"]
+                loss = -float64(step) * node["loss_valid"]
                 log_weight_tree = node["log_weight_tree"]
                 alpha = 0.5 * exp(loss - log_weight_tree)
                 # Context tree weighting dark magic
@@ -934,8 +934,8 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
         "pred_i": float32,
         "node": node_type,
         "node_pred": float32,
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
@@ -982,7 +982,7 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
                 # Prediction of this node
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
-                loss = -step * node["loss_valid"]
+                loss = -float64(step) * node["loss_valid"]
                 log_weight_tree = node["log_weight_tree"]
                 # Compute the aggregation weight for this subtree
                 alpha = 0.5 * exp(loss - log_weight_tree)
@@ -1034,8 +1034,8 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
         "node": node_type,
         "weighted_depth": float32,
         "node_pred": float32,
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
@@ -1072,7 +1072,7 @@ def tree_regressor_weighted_depth(tree, features_bitarray, step):
             idx_current = nodes[idx_current]["parent"]
             node = nodes[idx_current]
             depth_new = node["depth"]
-            loss = -step * node["loss_valid"]
+            loss = -float64(step) * node["loss_valid"]
             log_weight_tree = node["log_weight_tree"]
             alpha = 0.5 * exp(loss - log_weight_tree)
             weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth
diff --git a/wildwood/_utils.py b/wildwood/_utils.py
index e612d87..a8ba7ca 100644
--- a/wildwood/_utils.py
+++ b/wildwood/_utils.py
@@ -1,7 +1,7 @@
 from math import log, exp
 import numpy as np
 from numpy.random import randint
-from numba import jit, void, float32, uintp
+from numba import jit, void, float64, uintp
 
 # Global @jit flags used throughout the code (wth some exceptions)
 NOPYTHON = True
@@ -94,7 +94,7 @@ def resize(a, new_size, zeros=False):
 
 
 @jit(
-    float32(float32, float32),
+    float64(float64, float64),
     nopython=NOPYTHON,
     nogil=NOGIL,
     boundscheck=BOUNDSCHECK,
-- 
2.43.0


From bb4c218ba6759ad80facec4bcaeeed5de92dc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 09/32] fix: nodes never recorded that they are the left child
 of their parent

---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 86da67d..7518245 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -614,6 +614,7 @@ def add_node_tree(
     node["node_id"] = node_idx
     node["parent"] = parent
     node["depth"] = depth
+    node["is_left"] = is_left
     node["is_leaf"] = is_leaf
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
-- 
2.43.0


From f26adb39da4a791ed3b70f75a5e1409a242232cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 10/32] fix: fit failed with a ZeroDivisionError when some
 sample weights are zero

---
 wildwood/_split.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index 2401d58..4271f96 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -538,6 +538,11 @@ def try_feature_order_for_classifier_split(
         ):
             break
 
+        # Samples can have a zero weight, and the impurity of a child with no weight is
+        #  not defined, so we don't consider the split
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         # TODO: we shall pass the child impurity function as an argument to handle
         #  different impurities
         criterion = tree_context.criterion
@@ -944,6 +949,11 @@ def find_best_split_regressor_along_feature(
         ):
             break
 
+        # Samples can have a zero weight, and the impurity of a child with no weight is
+        #  not defined, so we don't consider the split
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         criterion = tree_context.criterion
         # Get the impurities of the left and right childs
         impurity_left, impurity_right = apply_childs_impurity_function_reg(
-- 
2.43.0


From 4286e5894b8aa67d379be3da253ac13a32de4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 11/32] fix: out-of-bounds write when encoding features with no
 rows

---
 wildwood/preprocessing/features_bitarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildwood/preprocessing/features_bitarray.py b/wildwood/preprocessing/features_bitarray.py
index b2db38e..45ede17 100644
--- a/wildwood/preprocessing/features_bitarray.py
+++ b/wildwood/preprocessing/features_bitarray.py
@@ -175,6 +175,10 @@ def _features_bitarray_fill_column(col_bitarray, n_bits, n_values_in_word, col):
         contain only contiguous non-negative integers {0, 1, 2, ..., max_value}
         coming from binning of both categorical and continuous columns.
     """
+    if col.size == 0:
+        # There is no word to fill
+        return
+
     for i, x_ij in enumerate(col):
         word = i // n_values_in_word
         pos_in_word = i % n_values_in_word
-- 
2.43.0


From e4019976bde7a2d3d5c69f7ced54822b5a7983d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 12/32] fix: columns of a dataframe with the same name were
 merged when encoding it

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..536ba9f 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From 13d181108ee0eaeaf30168d062b5d118e427ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 13/32] fix: dirichlet=0.0 after fit with aggregation=True gave
 NaN probabilities

fit rejects this combination already.
---
 wildwood/forest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 633572c..3fc1e4a 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1376,6 +1376,8 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         else:
             if val < 0.0:
                 raise ValueError("dirichlet must be positive")
+            elif self._fitted and self.aggregation and val == 0.0:
+                raise ValueError("dirichlet must be > 0 when aggregation=True")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
                 self._dirichlet = val
-- 
2.43.0


From 6c8d427a41745c69d440cdb16a20bd6a530a07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 14/32] fix: fitting again a one-versus-rest forest failed with
 two classes

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 3fc1e4a..15239fc 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1174,7 +1174,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                self._multiclass = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
-- 
2.43.0


From 15ed7e887f5b5fe3d62c6ba527b922cefbe49c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 15/32] fix: fit on a single sample ended in a RecursionError

---
 wildwood/forest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 15239fc..799671b 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -353,6 +353,9 @@ class ForestBase(BaseEstimator):
             y = np.ascontiguousarray(y, dtype=np.float32)
 
         n_samples, n_features = X.shape
+        if n_samples < 2:
+            # We need at least one in-the-bag and one out-of-bag sample
+            raise ValueError("fit requires at least 2 samples")
         # Let's get actual parameters based on the parameters passed by the user and
         # the data
         max_depth_ = self._get_max_depth_(self.max_depth)
-- 
2.43.0


From 8b93645925ca71cafa1c3d58b350b8b4137eb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 16/32] fix: step could not be changed after a call to lighten

---
 wildwood/tree.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..86e2074 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,23 +156,24 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                # The context is not there anymore after a call to lighten
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_classifier.nodes,
-                            self._tree_classifier.node_count,
-                            val,
-                        )
+                if self._tree_classifier is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_classifier.nodes,
+                        self._tree_classifier.node_count,
+                        val,
+                    )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_regressor.nodes,
-                            self._tree_regressor.node_count,
-                            val,
-                        )
+                if self._tree_regressor is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_regressor.nodes,
+                        self._tree_regressor.node_count,
+                        val,
+                    )
 
     def lighten(self):
         if hasattr(self, "_train_indices"):
-- 
2.43.0


From 1d847c1a76ea7166b4208e30be59cc84748b07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:44 +0000
Subject: [PATCH 17/32] fix: a forest could not be unpickled after a call to
 lighten

---
 wildwood/tree.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 86e2074..8bdc164 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -187,13 +187,19 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
                 self._tree_classifier_context = None
             if hasattr(self, "_tree_classifier"):
                 self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
+                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
+                self._tree_classifier.capacity = self._tree_classifier.node_count
                 self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
                 self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
+                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]
+                self._tree_regressor.capacity = self._tree_regressor.node_count
                 self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -478,7 +484,10 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # Nothing to rebuild: the tree is not fitted or lighten was called
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 316395c52037a5fc980ebc1259eba1d21352fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:18 +0000
Subject: [PATCH 18/32] fix: max_depth=None failed after a fit with an integer
 max_depth

In a process where a forest had been fitted with an integer max_depth, the next fit with
max_depth=None could end in an OverflowError: None was turned into the largest unsigned
integer, which does not fit in the signed integer expected by the compiled code.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 799671b..a9e87a9 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -731,7 +731,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From 92257e7a7191335728bfcdea53fc56848fcce370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 19/32] fix: ZeroDivisionError with zero weights among
 non-integer sample weights

The weight of the right child is obtained by subtraction, so with rounding errors a child
that contains only samples with a zero weight could be considered as a valid one.
---
 wildwood/_split.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index 4271f96..4835cb0 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -499,11 +499,20 @@ def try_feature_order_for_classifier_split(
 
     is_feature_categorical = tree_context.is_categorical[feature]
 
+    # Number of bins that have a positive weight, overall and on the left
+    n_weighted_bins = 0
+    for bin_ in ordered_bins_train:
+        if w_samples_train_in_bins[bin_] > 0.0:
+            n_weighted_bins += 1
+    n_weighted_bins_left = 0
+
     # We go from left to right and compute the information gain proxy of all possible
     #  splits in order to find the best one. Since bin_threshold is included in the
     #  left child, we must stop before the last bin, hence the bins[:-1]
     #  (otherwise n_samples_train_right == 0 for bin_threshold=bins[-1])
     for bin_threshold in ordered_bins_train[:-1]:
+        if w_samples_train_in_bins[bin_threshold] > 0.0:
+            n_weighted_bins_left += 1
         # On the left we accumulate the counts
         n_samples_train_left += n_samples_train_in_bins[bin_threshold]
         w_samples_train_left += w_samples_train_in_bins[bin_threshold]
@@ -539,9 +548,12 @@ def try_feature_order_for_classifier_split(
             break
 
         # Samples can have a zero weight, and the impurity of a child with no weight is
-        #  not defined, so we don't consider the split
+        #  not defined, so we don't consider the split. We look at the bins as well,
+        #  since w_samples_train_right is a difference, hence subject to rounding
         if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
             continue
+        if n_weighted_bins_left == 0 or n_weighted_bins_left == n_weighted_bins:
+            continue
 
         # TODO: we shall pass the child impurity function as an argument to handle
         #  different impurities
@@ -914,7 +926,16 @@ def find_best_split_regressor_along_feature(
                     bin_test = bins_valid[idx_valid]
                 cumsum_samples_valid_left[bin_train] = cum_valid_left
 
+    # Number of bins that have a positive weight, overall and on the left
+    n_weighted_bins = 0
+    for bin_ in bins_train:
+        if w_samples_train_in_bins[bin_] > 0.0:
+            n_weighted_bins += 1
+    n_weighted_bins_left = 0
+
     for bin_threshold in bins_train[:-1]:
+        if w_samples_train_in_bins[bin_threshold] > 0.0:
+            n_weighted_bins_left += 1
         n_samples_train_left += n_samples_train_in_bins[bin_threshold]
         w_samples_train_left += w_samples_train_in_bins[bin_threshold]
         n_samples_train_right -= n_samples_train_in_bins[bin_threshold]
@@ -950,9 +971,12 @@ def find_best_split_regressor_along_feature(
             break
 
         # Samples can have a zero weight, and the impurity of a child with no weight is
-        #  not defined, so we don't consider the split
+        #  not defined, so we don't consider the split. We look at the bins as well,
+        #  since w_samples_train_right is a difference, hence subject to rounding
         if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
             continue
+        if n_weighted_bins_left == 0 or n_weighted_bins_left == n_weighted_bins:
+            continue
 
         criterion = tree_context.criterion
         # Get the impurities of the left and right childs
-- 
2.43.0


From 161a96c5790aed9caf6c67da5d3c882c710e39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 20/32] fix: a read-only or later modified float32 y was used
 as is by ForestRegressor.fit

---
 wildwood/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index a9e87a9..13f060a 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -350,7 +350,8 @@ class ForestBase(BaseEstimator):
                 else:
                     sample_weight_ = [sample_weight_] * n_classes
         else:
-            y = np.ascontiguousarray(y, dtype=np.float32)
+            # A copy, since y can be read-only or modified by the user after fit
+            y = np.array(y, dtype=np.float32, order="C")
 
         n_samples, n_features = X.shape
         if n_samples < 2:
-- 
2.43.0


From f90a4ea9230b453d0ce8476311455fb181afd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 21/32] fix: infinite values led to NaN binning thresholds

---
 wildwood/preprocessing/_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/preprocessing/_binning.py b/wildwood/preprocessing/_binning.py
index 1cbfd31..1816b3a 100644
--- a/wildwood/preprocessing/_binning.py
+++ b/wildwood/preprocessing/_binning.py
@@ -60,6 +60,8 @@ def _find_binning_thresholds(col, max_bins, col_is_pandas_series=False):
 
     # TODO: it's not usefull IMO
     col = np.ascontiguousarray(col, dtype=np.float64)
+    # Averaging infinite values would lead to NaN thresholds
+    col = np.clip(col, a_min=-ALMOST_INF, a_max=ALMOST_INF)
     uniques = np.unique(col)
 
     if uniques.size <= max_bins:
-- 
2.43.0


From e78c0dd56c887ed468674303c3b2dadd32796c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:32 +0000
Subject: [PATCH 22/32] fix: methods called before fit did not raise
 NotFittedError

---
 wildwood/forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 13f060a..7acb4c1 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -257,6 +257,10 @@ class ForestBase(BaseEstimator):
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
 
+    def __sklearn_is_fitted__(self):
+        # Used by check_is_fitted: some attributes ending with "_" exist before fit
+        return self._fitted
+
     def __getstate__(self):
         return {k: serialize(v) for k, v in self.__dict__.items()}
 
-- 
2.43.0


From ce4159b0e3c7a4f322b9fc9b9e6471a5f8a0de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:32 +0000
Subject: [PATCH 23/32] fix: cat_min_categories of a wrong type ended in an
 AttributeError

---
 wildwood/preprocessing/encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 536ba9f..94dc775 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -755,3 +755,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 )
             else:
                 self._cat_min_categories = val
+        else:
+            raise ValueError(
+                f"cat_min_categories should be an int > 3 or either "
+                f"'log' or 'sqrt'; {val} was given"
+            )
-- 
2.43.0


From 8d40600a7bbf16f68283bb92ab74d10be71f3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:07 +0000
Subject: [PATCH 24/32] fix: predict without rows failed when a categorical
 column had no category

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 94dc775..7dd072d 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -371,7 +371,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                     col_n_bins += 1
 
                 # Once again, max_value is the number of bins minus one
-                max_values[col_idx] = col_n_bins - 1
+                max_values[col_idx] = max(col_n_bins - 1, 0)
 
                 # Save the eventually transformed column (if categorical)
                 X_dict[col_idx] = col
@@ -426,7 +426,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                     col_n_bins += 1
 
                 # Once again, max_value is the number of bins minus one
-                max_values[col_idx] = col_n_bins - 1
+                max_values[col_idx] = max(col_n_bins - 1, 0)
                 # Save the eventually transformed column (if categorical)
                 X_dict[col_idx] = col
 
-- 
2.43.0


From 056640ef9de8409a1b944d009c351dba2d18ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:20 +0000
Subject: [PATCH 25/32] fix: a fit with two classes changed multiclass="ovr"
 for the next fits

---
 wildwood/forest.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 7acb4c1..c8da467 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -246,7 +246,7 @@ class ForestBase(BaseEstimator):
             np.iinfo(np.uint32).max, size=n_estimators
         )
         if hasattr(self, "multiclass"):
-            if self.multiclass == "ovr":
+            if self._is_ovr():
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
@@ -318,7 +318,7 @@ class ForestBase(BaseEstimator):
         if is_classifier:
             y = self._encode_y(y)
             class_weight = self.class_weight
-            multiclass = self.multiclass
+            multiclass = "ovr" if self._is_ovr() else "multinomial"
             n_classes = self._n_classes_
 
             if self.aggregation and self.dirichlet == 0.0:
@@ -441,7 +441,7 @@ class ForestBase(BaseEstimator):
             ]
 
         # Parallel loop: use threading since all the numba code releases the GIL
-        ovr = is_classifier and self.multiclass == "ovr"
+        ovr = is_classifier and self._is_ovr()
         if self.verbose:
             with parallel_config(prefer="threads"):
                 trees = Parallel(
@@ -1150,6 +1150,11 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         self.multiclass = multiclass
         self.cat_split_strategy = cat_split_strategy
 
+    def _is_ovr(self):
+        """Are trees trained in a one-versus-rest fashion? With two classes, we use
+        "multinomial" instead, but the parameter is left as is for the next fit."""
+        return self.multiclass == "ovr" and self._n_classes_ > 2
+
     def _encode_y(self, y):
         """Encodes the label. When multiclass == "multinomial" this encodes the
         modalities in y into classes {0, ..., n_classes - 1}. When multiclass ==
@@ -1181,9 +1186,8 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         "Only two classes were detected: switching to "
                         'multiclass="multinomial" instead of "ovr"'
                     )
-                # We switch back to "multinomial" encoding
-                self._multiclass = "multinomial"
-                # And we need to flatten the array in this case (since LabelBinarizer
+                # We switch back to "multinomial" encoding (see ``_is_ovr``): we
+                # need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
             else:
@@ -1263,7 +1267,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))
         n_estimators = self.n_estimators
 
-        ovr = self.multiclass == "ovr"
+        ovr = self._is_ovr()
 
         with parallel_config(require="sharedmem"):
             Parallel(
@@ -1326,7 +1330,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             (
                 n_estimators,
                 n_samples,
-                2 if n_classes > 2 and self.multiclass == "ovr" else n_classes,
+                2 if self._is_ovr() else n_classes,
             )
         )
 
-- 
2.43.0


From 7a16f1705a0ad83bd9bf424d32c1817beaf6f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:04 +0000
Subject: [PATCH 26/32] fix: draw randomized depths from random_state, so that
 such fits are reproducible

---
 wildwood/forest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index c8da467..0d77a32 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -390,6 +390,9 @@ class ForestBase(BaseEstimator):
         features_bitarray = encoder.transform(X)
         self._encoder = encoder
 
+        # Depths are drawn from random_state, so that the fit is reproducible
+        depth_random_state = check_random_state(self.random_state)
+
         if is_classifier:
             # We are training a classifier
             trees = [
@@ -401,7 +404,7 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else depth_random_state.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -425,7 +428,7 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else depth_random_state.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 3625a859052f8b0288f24334cc06243d28e5200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 27/32] fix: bin missing values correctly when a whole
 categorical column is missing at transform

---
 wildwood/preprocessing/encoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 7dd072d..1bfc5ca 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -448,7 +448,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
                         # TODO: Direct numba code for this by testing the -1 directly ?
-                        binned_col = col.cat.codes.values.copy()
+                        # codes can have a type too small for the bin of missing values
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
@@ -477,7 +478,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # categories. Internally, the code used by pandas for missing
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
-                        binned_col = col.cat.codes.values.copy()
+                        # codes can have a type too small for the bin of missing values
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
-- 
2.43.0


From 031603a0943b6bd996f52852e1780e455235866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:40 +0000
Subject: [PATCH 28/32] fix: path_leaf always failed

---
 wildwood/_tree.py  | 5 +----
 wildwood/forest.py | 6 +++---
 wildwood/tree.py   | 3 +++
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 7518245..193db88 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -752,7 +752,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -787,9 +787,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
diff --git a/wildwood/forest.py b/wildwood/forest.py
index 0d77a32..cfad4f2 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -27,6 +27,7 @@ from sklearn.utils.validation import check_is_fitted
 # from ._binning import Binner
 from ._utils import split_strategy_mapping, criteria_mapping
 from .preprocessing._checks import get_is_categorical
+from .preprocessing.features_bitarray import features_bitarray_to_array
 from .preprocessing import Encoder
 
 
@@ -672,9 +673,8 @@ class ForestBase(BaseEstimator):
         return self.trees[tree_idx].get_nodes()
 
     def path_leaf(self, X, tree_idx=0):
-        check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
+        features_bitarray, _, _ = self._predict_helper(X)
+        X_binned = features_bitarray_to_array(features_bitarray)
         return self.trees[tree_idx].path_leaf(X_binned)
 
     @property
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 8bdc164..62d6948 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -446,6 +446,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
     def get_nodes(self):
         return get_nodes_regressor(self._tree_regressor)
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
 
 def serialize(obj):
     if isinstance(obj, _TreeClassifier):
-- 
2.43.0


From c44e9ad18f8c3d764a06b3a4ed04385f0b2bc997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:40 +0000
Subject: [PATCH 29/32] fix: get_depth and get_n_leaves of trees always failed

---
 wildwood/tree.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 62d6948..bb411cb 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -12,7 +12,6 @@ import numpy as np
 
 from sklearn.base import BaseEstimator
 from sklearn.base import ClassifierMixin, RegressorMixin
-from sklearn.utils.validation import check_is_fitted
 
 from ._split import (
     SplitClassifier,
@@ -110,11 +109,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.tree_.max_depth : int
             The maximum depth of the tree.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        return int(self.get_nodes()["depth"].max())
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -128,11 +123,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.tree_.n_leaves : int
             Number of leaves.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        return int(self.get_nodes()["is_leaf"].sum())
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


From f476d175bf6b89201fb4456d8b53258e0fc712b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:40 +0000
Subject: [PATCH 30/32] fix: columns_ of a one-hot encoded dataset listed the
 dropped columns

---
 wildwood/datasets/dataset.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 2c54163..cbb0524 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -349,13 +349,13 @@ class Dataset:
         if self.n_features_categorical_ > 0:
             if self.one_hot_encode:
                 # Get the list of modalities from the OneHotEncoder
-                all_modalities = (
-                    self.transformer.transformer_list[-1][1]
-                    .transformers_[0][1]
-                    .categories_
-                )
-                for categorical_column, modalities in zip(
-                    self.categorical_columns_, all_modalities
+                encoder = self.transformer.transformer_list[-1][1].transformers_[0][1]
+                # Modalities dropped by the encoder do not have a column
+                drop_idx = encoder.drop_idx_
+                if drop_idx is None:
+                    drop_idx = [None] * len(encoder.categories_)
+                for categorical_column, modalities, dropped in zip(
+                    self.categorical_columns_, encoder.categories_, drop_idx
                 ):
                     # Add the columns for this features
                     columns.extend(
@@ -365,6 +365,7 @@ class Dataset:
                             # + modality
                             + "#" + str(idx_modality)
                             for idx_modality, modality in enumerate(modalities)
+                            if idx_modality != dropped
                         ]
                     )
             else:
-- 
2.43.0


From 41412b3fc3de46f9a03605168836021fb81c9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 31/32] fix: attributes of a dataset were not those of the
 declared columns

---
 wildwood/datasets/dataset.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index cbb0524..e06b5a5 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -301,18 +301,11 @@ class Dataset:
         # column label
         self.n_samples_in_, _ = df.shape
 
-        # A list containing the names of the categorical colunms
-        self.categorical_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name == "category"
-        ]
-        # A list containing the names of the continuous colunms
-        self.continuous_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name != "category"
-        ]
+        # A list containing the names of the categorical columns, as declared, since
+        # these declarations are the ones used by the transformer
+        self.categorical_columns_ = list(self.categorical_columns or [])
+        # A list containing the names of the continuous columns
+        self.continuous_columns_ = list(self.continuous_columns or [])
 
         self.n_features_categorical_ = len(self.categorical_columns_)
         self.n_features_continuous_ = len(self.continuous_columns_)
-- 
2.43.0


From ab41e547464794578b697ec52131bcf037a1c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 32/32] fix: categorical_features_ of a dataset survived a
 change to one-hot encoding

---
 wildwood/datasets/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index e06b5a5..4dc3ead 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -311,6 +311,8 @@ class Dataset:
         self.n_features_continuous_ = len(self.continuous_columns_)
         self.n_features_in_ = self.n_features_categorical_ + self.n_features_continuous_
 
+        # A previous call might have been with another encoding
+        self.categorical_features_ = None
         if not self.one_hot_encode and self.n_features_categorical_ > 0:
             # If we do not use one-hot encoding, we compute a boolean mask indicating
             # which features are categorical. We use the fact that by construction of
-- 
2.43.0

