From 209ffb8a29a3cd04f4ddc664ef9128c99bf4b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 01/25] fix: honour categorical_features given to the
 constructor of a forest

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..ecc10bb 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -359,7 +359,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 7fef0f132fe038ef8a4e3d3e6783ef90f6003a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 02/25] fix: train n_estimators different trees per class with
 multiclass="ovr"

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ecc10bb..ce604c0 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -249,9 +249,9 @@ class ForestBase(BaseEstimator):
             if self.multiclass == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
-                # trees used in the one-versus all strategy
-                # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                # trees used in the one-versus all strategy. The trees of a same class
+                # are contiguous (the class of a tree is tree_idx // n_estimators)
+                _random_states = np.tile(_random_states, self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From 0d9f270c24b9773490f99e4b1b8b825c7bc699e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 03/25] fix: make the binning subsample depend on the
 random_state of the forest

---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ce604c0..85fcad9 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -367,6 +367,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From 85336aae9f1eb1b5d522dee2703848a2ee3401dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 04/25] fix: do not modify inplace the sample_weight passed to
 fit

---
 wildwood/forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 85fcad9..afff10a 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,10 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    # Not inplace, since sample_weight_ can be the array of the user
+                    sample_weight_ = np.ascontiguousarray(
+                        sample_weight_ * expanded_class_weight, dtype=np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From 34457aa99e537d9475469ca685e7f7adc6b27cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 05/25] fix: bin each column of a dataframe with duplicate
 column names

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..536ba9f 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From 8456cdf0b2dd441e09f9afbbf6aeb21de7321059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 06/25] fix: raise the errors of the random_state setter

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index afff10a..5d71a4c 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -869,9 +869,11 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError(
+                    "random_state must be either None or an integer number"
+                )
 
     @property
     def verbose(self):
-- 
2.43.0


From 7c2e8bd5f41b82a2996d3ab1e98e3d9397e3cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 07/25] fix: no out-of-bounds read with a single class and
 categorical features

---
 wildwood/_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..0909639 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -700,7 +700,8 @@ def find_best_split_classifier_along_feature(
                     cumsum_samples_valid_left,
                 )
         elif cat_split_strategy == SPLIT_STRATEGY_BINARY:
-            idx_sort = np.argsort(y_sum_positives[:, 1])
+            # There is no class 1 when a single class is observed
+            idx_sort = np.argsort(y_sum_positives[:, min(1, n_classes - 1)])
             bins_train[:] = non_empty_bins_train[idx_sort]
             try_feature_order_for_classifier_split(
                 tree_context,
-- 
2.43.0


From fcd3272eddb3844297d071c55d2ccb2458e20ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 08/25] fix: sort categories by average label in regression
 splits

---
 wildwood/_split.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index 0909639..c3e3152 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -886,7 +886,12 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        # Sort bins according to the average label in each bin: this leads to the best
+        # split partitioning for regression
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From 307aadfc31d00d40cfab4df5ba6e6844796b397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 09/25] fix: keep aggregation weights correct for large
 validation losses

---
 wildwood/_tree.py | 56 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..819398a 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -840,6 +840,50 @@ def tree_apply(tree, features_bitarray):
     return out
 
 
+@jit(
+    float32(node_type[::1], uintp, float32),
+    nopython=NOPYTHON,
+    nogil=NOGIL,
+    boundscheck=BOUNDSCHECK,
+    fastmath=FASTMATH,
+    locals={
+        "left_child": intp,
+        "right_child": intp,
+        "log_weight_childs": float32,
+    },
+)
+def aggregation_weight(nodes, node_idx, loss):
+    """Computes the weight of the prediction of a non-terminal node in the aggregation
+    of all the subtrees rooted at this node.
+
+    This weight equals exp(loss) / (2 * exp(log_weight_tree)). It is computed using
+    the tree weights of the childs, since for large losses the rounding error of
+    log_weight_tree is much larger than one, and leads to weights outside [0, 1].
+
+    Parameters
+    ----------
+    nodes : ndarray
+        A numpy array containing the nodes data
+
+    node_idx : int
+        Index of the (non-terminal) node
+
+    loss : float
+        Minus the validation loss of the node multiplied by the step-size
+
+    Returns
+    -------
+    output : float
+        The weight of the prediction of the node, always between 0 and 1
+    """
+    left_child = intp(nodes[node_idx]["left_child"])
+    right_child = intp(nodes[node_idx]["right_child"])
+    log_weight_childs = (
+        nodes[left_child]["log_weight_tree"] + nodes[right_child]["log_weight_tree"]
+    )
+    return 1.0 / (1.0 + exp(log_weight_childs - loss))
+
+
 @jit(
     float32[:, ::1](TreeClassifierType, FeaturesBitArrayType, boolean, float32),
     nopython=NOPYTHON,
@@ -858,7 +902,6 @@ def tree_apply(tree, features_bitarray):
         "node": node_type,
         "node_pred": float32[::1],
         "loss": float32,
-        "log_weight_tree": float32,
         "alpha": float32,
     },
 )
@@ -910,8 +953,7 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
                 loss = -step * node["loss_valid"]
-                log_weight_tree = node["log_weight_tree"]
-                alpha = 0.5 * exp(loss - log_weight_tree)
+                alpha = aggregation_weight(nodes, idx_current, loss)
                 # Context tree weighting dark magic
                 pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i
 
@@ -935,7 +977,6 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
         "node": node_type,
         "node_pred": float32,
         "loss": float32,
-        "log_weight_tree": float32,
         "alpha": float32,
     },
 )
@@ -983,9 +1024,8 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
                 loss = -step * node["loss_valid"]
-                log_weight_tree = node["log_weight_tree"]
                 # Compute the aggregation weight for this subtree
-                alpha = 0.5 * exp(loss - log_weight_tree)
+                alpha = aggregation_weight(nodes, idx_current, loss)
                 # Context tree weighting dark magic
                 pred_i = alpha * node_pred + (1 - alpha) * pred_i
 
@@ -1035,7 +1075,6 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
         "weighted_depth": float32,
         "node_pred": float32,
         "loss": float32,
-        "log_weight_tree": float32,
         "alpha": float32,
     },
 )
@@ -1073,8 +1112,7 @@ def tree_regressor_weighted_depth(tree, features_bitarray, step):
             node = nodes[idx_current]
             depth_new = node["depth"]
             loss = -step * node["loss_valid"]
-            log_weight_tree = node["log_weight_tree"]
-            alpha = 0.5 * exp(loss - log_weight_tree)
+            alpha = aggregation_weight(nodes, idx_current, loss)
             weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth
         out[i] = weighted_depth
 
-- 
2.43.0


From ebd238f7845807297eb0caea380eca4f404e8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 10/25] fix: pickle a forest on which lighten was called

---
 wildwood/tree.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..55a8cf0 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -186,13 +186,19 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
                 self._tree_classifier_context = None
             if hasattr(self, "_tree_classifier"):
                 self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
+                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
+                self._tree_classifier.capacity = self._tree_classifier.node_count
                 self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
                 self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
+                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]
+                self._tree_regressor.capacity = self._tree_regressor.node_count
                 self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -477,7 +483,10 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # Not fitted yet, or the contexts of a forest on which lighten was called
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 106ae3c53ffc57004b2d4440820f844f1cd5e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 11/25] fix: step can be changed after lighten, and a refused
 dirichlet leaves the forest unchanged

---
 wildwood/forest.py |  2 +-
 wildwood/tree.py   | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 5d71a4c..0b89918 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1377,10 +1377,10 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-                self._dirichlet = val
                 if self._fitted and recompute:
                     for tree in self.trees:
                         tree.dirichlet = val
+                self._dirichlet = val
 
     @property
     def classes_(self):
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 55a8cf0..a8c40f6 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,18 +156,20 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
+                if self._tree_classifier is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_classifier.nodes,
                             self._tree_classifier.node_count,
                             val,
                         )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
+                if self._tree_regressor is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_regressor.nodes,
                             self._tree_regressor.node_count,
@@ -330,10 +332,12 @@ class TreeClassifier(ClassifierMixin, TreeBase):
     def dirichlet(self, val):
         # We skip the checks and assume they are done by the forest
         if val != self.dirichlet:
+            if self._tree_classifier is not None and self._tree_classifier_context is None:
+                raise ValueError("You cannot change dirichlet after calling lighten")
             self._dirichlet = val
-            # If the attribute _tree_classifier_context is there, then the tree has
-            # already been trained and its predictions needs to be recomputed
-            if hasattr(self, "_tree_classifier_context"):
+            # If _tree_classifier_context is there, then the tree has already been
+            # trained and its predictions needs to be recomputed
+            if self._tree_classifier_context is not None:
                 self._tree_classifier_context.dirichlet = val
                 recompute_node_predictions(
                     self._tree_classifier, self._tree_classifier_context, val
-- 
2.43.0


From 22270efb705f73a51e30ca2d288c9ea9636221dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 12/25] fix: no division by zero in fit with zero sample
 weights

---
 wildwood/_node.py  |  2 +-
 wildwood/_split.py | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/wildwood/_node.py b/wildwood/_node.py
index 64cbeb6..fba695f 100644
--- a/wildwood/_node.py
+++ b/wildwood/_node.py
@@ -864,7 +864,7 @@ def compute_node_regressor_context(
             y_sq_sum[f, bin] += w_y * label
 
         # The prediction is simply the weighted average of labels
-        if f == 0:
+        if f == 0 and w_samples_train > 0.0:
             y_pred /= w_samples_train
 
         # Compute sample counts about validation samples
diff --git a/wildwood/_split.py b/wildwood/_split.py
index c3e3152..28653ff 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -529,6 +529,10 @@ def try_feature_order_for_classifier_split(
         ):
             continue
 
+        # The left child contains only samples with zero sample weights
+        if w_samples_train_left <= 0.0:
+            continue
+
         # If the split would lead to less than min_samples_leaf training or less than
         #  min_samples_leaf validation samples in the right child, and since we go from
         #  left to right, no other future bin on the right would lead to an
@@ -538,6 +542,10 @@ def try_feature_order_for_classifier_split(
         ):
             break
 
+        # The right child contains only samples with zero sample weights
+        if w_samples_train_right <= 0.0:
+            break
+
         # TODO: we shall pass the child impurity function as an argument to handle
         #  different impurities
         criterion = tree_context.criterion
@@ -936,6 +944,10 @@ def find_best_split_regressor_along_feature(
         ):
             continue
 
+        # The left child contains only samples with zero sample weights
+        if w_samples_train_left <= 0.0:
+            continue
+
         # If the split would lead to less than min_samples_leaf training or less than
         #  min_samples_leaf validation samples in the right child, and since we go from
         #  left to right, no other future bin on the right would lead to an
@@ -945,6 +957,10 @@ def find_best_split_regressor_along_feature(
         ):
             break
 
+        # The right child contains only samples with zero sample weights
+        if w_samples_train_right <= 0.0:
+            break
+
         criterion = tree_context.criterion
         # Get the impurities of the left and right childs
         impurity_left, impurity_right = apply_childs_impurity_function_reg(
-- 
2.43.0


From 89518b686b8dd2e7479e562adc3c50e034e0af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 13/25] fix: ForestRegressor.predict_trees uses the encoder

---
 wildwood/forest.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 0b89918..3c19c33 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1698,17 +1698,8 @@ class ForestRegressor(ForestBase, RegressorMixin):
         output : ndarray of shape (n_estimators, n_samples)
            The predicted target regression values by each tree for the input samples.
         """
-        check_is_fitted(self)
-        # Check data
-        X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
-        n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
-
-        lock = threading.Lock()
+        features_bitarray, n_jobs, lock = self._predict_helper(X)
+        preds = np.empty((len(self.trees), features_bitarray.n_samples))
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1716,11 +1707,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    tree.predict, features_bitarray, preds, lock, tree_idx
                 )
-                for tree_idx, e in enumerate(self.trees)
+                for tree_idx, tree in enumerate(self.trees)
             )
-        return probas
+        return preds
 
     @property
     def criterion(self):
-- 
2.43.0


From 17d8fd380b3b0a312cec5f4659b90cd488fadd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 14/25] fix: store in the nodes whether they are left childs

---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 819398a..a0d423a 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -615,6 +615,7 @@ def add_node_tree(
     node["parent"] = parent
     node["depth"] = depth
     node["is_leaf"] = is_leaf
+    node["is_left"] = is_left
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
     node["n_samples_valid"] = n_samples_valid
-- 
2.43.0


From 8ba51082156bb3524820ba1dcd37198315bb6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 15/25] fix: fit with max_depth=None works after a fit with an
 integer max_depth

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 3c19c33..193f585 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -727,7 +727,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From 06c0b3a6c5d94d816524280540d9ba3d0a2741e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 16/25] fix: multiclass="ovr" with two classes no longer
 overwrites the parameter, so a forest can be fitted again

---
 wildwood/forest.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 193f585..5fc1c01 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -246,7 +246,7 @@ class ForestBase(BaseEstimator):
             np.iinfo(np.uint32).max, size=n_estimators
         )
         if hasattr(self, "multiclass"):
-            if self.multiclass == "ovr":
+            if self._get_multiclass_(self.multiclass, self._n_classes_) == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy. The trees of a same class
@@ -313,8 +313,8 @@ class ForestBase(BaseEstimator):
         if is_classifier:
             y = self._encode_y(y)
             class_weight = self.class_weight
-            multiclass = self.multiclass
             n_classes = self._n_classes_
+            multiclass = self._get_multiclass_(self.multiclass, n_classes)
 
             if self.aggregation and self.dirichlet == 0.0:
                 raise ValueError("dirichlet must be > 0 when aggregation=True")
@@ -432,7 +432,7 @@ class ForestBase(BaseEstimator):
             ]
 
         # Parallel loop: use threading since all the numba code releases the GIL
-        ovr = is_classifier and self.multiclass == "ovr"
+        ovr = is_classifier and multiclass == "ovr"
         if self.verbose:
             with parallel_config(prefer="threads"):
                 trees = Parallel(
@@ -1172,8 +1172,8 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         "Only two classes were detected: switching to "
                         'multiclass="multinomial" instead of "ovr"'
                     )
-                # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                # We switch back to "multinomial" encoding (without changing the
+                # parameter, since another fit can use more classes)
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
@@ -1254,7 +1254,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))
         n_estimators = self.n_estimators
 
-        ovr = self.multiclass == "ovr"
+        ovr = self._get_multiclass_(self.multiclass, self.n_classes_) == "ovr"
 
         with parallel_config(require="sharedmem"):
             Parallel(
@@ -1438,6 +1438,11 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             else:
                 self._multiclass = val
 
+    @staticmethod
+    def _get_multiclass_(multiclass, n_classes):
+        # "ovr" is used only with more than two classes
+        return "multinomial" if n_classes <= 2 else multiclass
+
     @property
     def cat_split_strategy(self):
         return self._cat_split_strategy
-- 
2.43.0


From 838841d7b323b88385b0adc7e87ba0ac7c046970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:25 +0000
Subject: [PATCH 17/25] fix: bin of missing values when a column of many
 categories is entirely missing

pandas gives int8 codes to a categorical series with no known value,
whatever the number of categories, so that writing the index of the bin
for missing values (128 or more) overflowed and the negative codes
overwrote neighbouring rows in the bitarray.
---
 wildwood/preprocessing/encoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 536ba9f..fa20203 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -448,7 +448,9 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
                         # TODO: Direct numba code for this by testing the -1 directly ?
-                        binned_col = col.cat.codes.values.copy()
+                        # The dtype of the codes is too small for the last bin index when
+                        # all the values of the column are missing
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
@@ -477,7 +479,9 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # categories. Internally, the code used by pandas for missing
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
-                        binned_col = col.cat.codes.values.copy()
+                        # The dtype of the codes is too small for the last bin index when
+                        # all the values of the column are missing
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
-- 
2.43.0


From 829024d455562739365288ac8f461f068b0a726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:47 +0000
Subject: [PATCH 18/25] fix: number of bits of large values in FeaturesBitArray

ceil(log2(max_value + 1)) is rounded down for values just above a power
of two from 2**49 on, so that such values were truncated, and the class
could not hold values from 2**63 on.
---
 wildwood/preprocessing/features_bitarray.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/features_bitarray.py b/wildwood/preprocessing/features_bitarray.py
index b2db38e..49a3b8a 100644
--- a/wildwood/preprocessing/features_bitarray.py
+++ b/wildwood/preprocessing/features_bitarray.py
@@ -127,9 +127,14 @@ class FeaturesBitArray(object):
                 self.n_values_in_words[j] = 64
                 self.bitmasks[j] = 1
             else:
-                self.n_bits[j] = ceil(np.log2(max_value + 1))
+                # This counts bits with integers, since the logarithm of a large
+                # integer is not accurate enough
+                n_bits = uint64(1)
+                while n_bits < 64 and (max_value >> n_bits) > 0:
+                    n_bits += uint64(1)
+                self.n_bits[j] = n_bits
                 self.n_values_in_words[j] = floor(64 / self.n_bits[j])
-                self.bitmasks[j] = (1 << self.n_bits[j]) - 1
+                self.bitmasks[j] = uint64(_UINT64_MAX) >> (uint64(64) - n_bits)
 
             n_words = ceil(n_samples / self.n_values_in_words[j])
             offset += n_words
-- 
2.43.0


From 32ecb1f94cc09e18c8bc033f0a8f4d2f134dbdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 19/25] fix: a refused or interrupted fit leaves the forest as
 it was

A fit that raised on a fitted forest (invalid categorical_features,
unsupported dtype...) left the classes and categorical_features of the
refused call together with the previous trees: predict_proba then raised
or returned wrong labels, and the next fit was refused too.
---
 wildwood/forest.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 5fc1c01..41ca1a9 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -298,6 +298,18 @@ class ForestBase(BaseEstimator):
         self : object
             The fitted forest.
         """
+        previous_state = self.__dict__.copy()
+        try:
+            return self._fit(
+                X, y, sample_weight, categorical_features, randomized_depth
+            )
+        except BaseException:
+            # A refused or interrupted fit leaves the forest as it was
+            self.__dict__ = previous_state
+            raise
+
+    def _fit(self, X, y, sample_weight, categorical_features, randomized_depth):
+        """Does the actual work of ``fit``."""
         if categorical_features is not None:
             self.categorical_features = categorical_features
 
-- 
2.43.0


From 408cbe42cd194377d71399989ec5b02e8c905237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:09 +0000
Subject: [PATCH 20/25] fix: ForestRegressor.fit works on read-only float32
 targets

A contiguous float32 y was passed without copy to the compiled code,
which refuses read-only arrays (memory-mapped data for instance).
---
 wildwood/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 41ca1a9..d8657b4 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -361,7 +361,8 @@ class ForestBase(BaseEstimator):
                 else:
                     sample_weight_ = [sample_weight_] * n_classes
         else:
-            y = np.ascontiguousarray(y, dtype=np.float32)
+            # A copy, since the array of the user can be read-only
+            y = np.array(y, dtype=np.float32, order="C")
 
         n_samples, n_features = X.shape
         # Let's get actual parameters based on the parameters passed by the user and
-- 
2.43.0


From 8883ced9818efc6fe93e96f46a581f2d815ee4fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:59:03 +0000
Subject: [PATCH 21/25] fix: Dataset.extract describes the columns it returns
 (order, declared categories, stale mask)

---
 wildwood/datasets/dataset.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 2c54163..b9987d0 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -301,23 +301,18 @@ class Dataset:
         # column label
         self.n_samples_in_, _ = df.shape
 
-        # A list containing the names of the categorical colunms
-        self.categorical_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name == "category"
-        ]
-        # A list containing the names of the continuous colunms
-        self.continuous_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name != "category"
-        ]
+        # A list containing the names of the categorical colunms, in the order used
+        # by the transformer
+        self.categorical_columns_ = list(self.categorical_columns or [])
+        # A list containing the names of the continuous colunms, in the order used
+        # by the transformer
+        self.continuous_columns_ = list(self.continuous_columns or [])
 
         self.n_features_categorical_ = len(self.categorical_columns_)
         self.n_features_continuous_ = len(self.continuous_columns_)
         self.n_features_in_ = self.n_features_categorical_ + self.n_features_continuous_
 
+        self.categorical_features_ = None
         if not self.one_hot_encode and self.n_features_categorical_ > 0:
             # If we do not use one-hot encoding, we compute a boolean mask indicating
             # which features are categorical. We use the fact that by construction of
-- 
2.43.0


From 777fa444c2aa8c41e10f31a73d01feadf050c0e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:59:03 +0000
Subject: [PATCH 22/25] fix: columns_ of Dataset leaves out the modalities
 dropped by the encoder

---
 wildwood/datasets/dataset.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index b9987d0..8779911 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -344,13 +344,14 @@ class Dataset:
         if self.n_features_categorical_ > 0:
             if self.one_hot_encode:
                 # Get the list of modalities from the OneHotEncoder
-                all_modalities = (
-                    self.transformer.transformer_list[-1][1]
-                    .transformers_[0][1]
-                    .categories_
-                )
-                for categorical_column, modalities in zip(
-                    self.categorical_columns_, all_modalities
+                encoder = self.transformer.transformer_list[-1][1].transformers_[0][1]
+                all_modalities = encoder.categories_
+                # Indexes of the modalities dropped by the encoder (see drop)
+                all_dropped = encoder.drop_idx_
+                if all_dropped is None:
+                    all_dropped = [None] * len(all_modalities)
+                for categorical_column, modalities, dropped in zip(
+                    self.categorical_columns_, all_modalities, all_dropped
                 ):
                     # Add the columns for this features
                     columns.extend(
@@ -360,6 +361,7 @@ class Dataset:
                             # + modality
                             + "#" + str(idx_modality)
                             for idx_modality, modality in enumerate(modalities)
+                            if idx_modality != dropped
                         ]
                     )
             else:
-- 
2.43.0


From 198b08415a5f472e8ca027ea78da80b2b35040be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 23/25] fix: randomized_depth draws the depths from
 random_state

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index d8657b4..4412636 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -393,6 +393,8 @@ class ForestBase(BaseEstimator):
 
         features_bitarray = encoder.transform(X)
         self._encoder = encoder
+        # Generator of the maximum depths, used only if randomized_depth is True
+        rng_depth = check_random_state(self.random_state)
 
         if is_classifier:
             # We are training a classifier
@@ -405,7 +407,7 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else rng_depth.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -429,7 +431,7 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else rng_depth.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 1f7bb5668e3c5516e1704d4e32dbd331a6b836a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:43 +0000
Subject: [PATCH 24/25] fix: get_depth and get_n_leaves of the trees of a
 fitted forest

---
 wildwood/tree.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index a8c40f6..68d4185 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -12,7 +12,6 @@ import numpy as np
 
 from sklearn.base import BaseEstimator
 from sklearn.base import ClassifierMixin, RegressorMixin
-from sklearn.utils.validation import check_is_fitted
 
 from ._split import (
     SplitClassifier,
@@ -110,11 +109,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.tree_.max_depth : int
             The maximum depth of the tree.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        return int(self.get_nodes()["depth"].max())
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -128,11 +123,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.tree_.n_leaves : int
             Number of leaves.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        return int(self.get_nodes()["is_leaf"].sum())
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


From 1914dc271de86da498f7fc6b08cc4a4e171f95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:05 +0000
Subject: [PATCH 25/25] fix: path_leaf works on fitted forests (classifiers,
 regressors, single-node trees)

---
 wildwood/_tree.py  | 13 +++++++------
 wildwood/forest.py |  6 ++----
 wildwood/tree.py   |  3 +++
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index a0d423a..22dce81 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -27,7 +27,11 @@ from numba.experimental import jitclass
 from ._utils import NOPYTHON, NOGIL, BOUNDSCHECK, FASTMATH, get_type, resize
 from ._node import node_type, node_dtype
 from ._split import is_bin_in_partition
-from .preprocessing.features_bitarray import FeaturesBitArrayType, get_value
+from .preprocessing.features_bitarray import (
+    FeaturesBitArrayType,
+    features_bitarray_to_array,
+    get_value,
+)
 
 IS_FIRST = 1
 IS_NOT_FIRST = 0
@@ -731,7 +735,7 @@ def find_leaf(tree, features_bitarray, i):
 
 def path_leaf(tree, X):
     paths = []
-    for xi in X:
+    for xi in features_bitarray_to_array(X):
         path = sample_path_leaf(tree, xi)
         paths.append(path)
     return paths
@@ -752,7 +756,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -787,9 +791,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
diff --git a/wildwood/forest.py b/wildwood/forest.py
index 4412636..fc1fc56 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -675,10 +675,8 @@ class ForestBase(BaseEstimator):
         return self.trees[tree_idx].get_nodes()
 
     def path_leaf(self, X, tree_idx=0):
-        check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
-        return self.trees[tree_idx].path_leaf(X_binned)
+        features_bitarray, _, _ = self._predict_helper(X)
+        return self.trees[tree_idx].path_leaf(features_bitarray)
 
     @property
     def n_estimators(self):
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 68d4185..acdef70 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -434,6 +434,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
         )
         return y_pred
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
     def weighted_depth(self, X):
         return tree_regressor_weighted_depth(self._tree_regressor, X, self.step)
 
-- 
2.43.0

