From cee968a132b2d1ee4d46040ee43f8aa1b8b64909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:26 +0000
Subject: [PATCH 01/21] fix: order categories by mean label in categorical
 regression splits

---
 wildwood/_split.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..390641e 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -885,7 +885,10 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From daa042f5e26ee9428b05e65250de4505c6e5ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 02/21] fix: default max_depth overflows once a forest with an
 explicit max_depth was fitted

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..6062fab 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -723,7 +723,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From 14d30a763ddae484e8850501f29ef54d328686d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 03/21] fix: categorical_features given to the constructor was
 ignored by fit

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 6062fab..d0c6779 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -359,7 +359,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 7643678f9dd56d339c256d767fb744bd8dbe18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 04/21] fix: one-versus-rest trees of a same class shared their
 random states

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index d0c6779..691c7e4 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -251,7 +251,7 @@ class ForestBase(BaseEstimator):
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
                 # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                _random_states = np.tile(_random_states, self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From 5b16c02b2e267962c70a1a20e5eef35bb46018d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 05/21] fix: invalid random_state values were not rejected

---
 wildwood/forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 691c7e4..21f4e82 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -865,9 +865,9 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError("random_state must be either None or an integer number")
 
     @property
     def verbose(self):
-- 
2.43.0


From 8049b2bcf5abf98dc014810a10d9a7eb7cdbc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 06/21] fix: fit with class_weight modified the user's
 sample_weight in place

---
 wildwood/forest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 21f4e82..70839bd 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,9 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    sample_weight_ = np.ascontiguousarray(
+                        sample_weight_ * expanded_class_weight, dtype=np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From f714109bff0005a3b77034c2397be166e4326117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 07/21] fix: the encoder's subsample did not depend on the
 forest's random_state

---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 70839bd..aee9106 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -369,6 +369,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From dc6a0f0a82a866789bb1c7c1286c78c9dea0d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 08/21] fix: dataframes with duplicated column names were
 encoded wrongly

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..536ba9f 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From e31e44da3adb2ab9d85a55b3e0e77eefb1b2a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 09/21] fix: missing entries of object arrays were merged with
 a regular category

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 536ba9f..06fae46 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -385,8 +385,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 # If X has a numerical dtype, we can look for missing values
                 has_missing_values = np.isnan(X).any(axis=0)
             else:
-                # Otherwise, there is no missing value
-                has_missing_values = np.zeros(n_features, dtype=np.bool_)
+                # Otherwise, missing values can be None or nan objects
+                has_missing_values = pd.isna(X).any(axis=0)
 
             for col_idx in range(n_features):
                 col = X[:, col_idx]
-- 
2.43.0


From cee33dbc73ea6c9dbc28ae3901d9187579b7f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 10/21] fix: ForestRegressor.predict_trees always raised
 AttributeError

---
 wildwood/forest.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index aee9106..1b664b0 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1698,14 +1698,8 @@ class ForestRegressor(ForestBase, RegressorMixin):
         check_is_fitted(self)
         # Check data
         X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
-        n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
-
-        lock = threading.Lock()
+        X_binned, n_jobs, lock = self._predict_helper(X)
+        preds = np.empty((len(self.trees), X_binned.n_samples))
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1713,11 +1707,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, X_binned, preds, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return preds
 
     @property
     def criterion(self):
-- 
2.43.0


From ebcebf9d0f63abe37ae93921114dd291e4a583ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 11/21] fix: refitting a one-versus-rest forest on two classes
 raised AttributeError

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 1b664b0..9083b52 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1170,7 +1170,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                self._multiclass = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
-- 
2.43.0


From 0e87e7cbac6268199a0f3e8091085cbc4ec77110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 12/21] fix: lightened or unfitted trees could not be unpickled

---
 wildwood/tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..9776aa3 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -477,6 +477,9 @@ def serialize(obj):
 
 
 def unserialize(key, val):
+    if val is None:
+        # Not fitted yet, or removed by lighten
+        return None
     if key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
@@ -494,9 +497,9 @@ def unserialize(key, val):
             bin_partitions_capacity,
             bin_partitions_end,
         )
-        tree.nodes[:] = val["nodes"]
+        tree.nodes[: val["nodes"].shape[0]] = val["nodes"]
         tree.y_pred[:] = val["y_pred"]
-        tree.bin_partitions[:] = val["bin_partitions"]
+        tree.bin_partitions[: val["bin_partitions"].size] = val["bin_partitions"]
         return tree
     elif key == "_tree_regressor":
         n_features = val["n_features"]
@@ -513,9 +516,9 @@ def unserialize(key, val):
             bin_partitions_capacity,
             bin_partitions_end,
         )
-        tree.nodes[:] = val["nodes"]
+        tree.nodes[: val["nodes"].shape[0]] = val["nodes"]
         tree.y_pred[:] = val["y_pred"]
-        tree.bin_partitions[:] = val["bin_partitions"]
+        tree.bin_partitions[: val["bin_partitions"].size] = val["bin_partitions"]
         return tree
     elif key == "_tree_classifier_context":
         dict_features_bitarray = val["features_bitarray"]
-- 
2.43.0


From 09caf311448d6f4264818558ef601078c81a616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:22 +0000
Subject: [PATCH 13/21] fix: step could not be changed on lightened or unfitted
 trees

---
 wildwood/tree.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 9776aa3..b319e3e 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,18 +156,20 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
+                if self._tree_classifier is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_classifier.nodes,
                             self._tree_classifier.node_count,
                             val,
                         )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
+                if self._tree_regressor is not None:
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_regressor.nodes,
                             self._tree_regressor.node_count,
-- 
2.43.0


From 0471fd4b6ce2683c53cde55840a58e8e698c80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 14/21] fix: reject NaN for step, dirichlet and max_features

---
 wildwood/forest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 9083b52..2a686be 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -688,7 +688,7 @@ class ForestBase(BaseEstimator):
     def step(self, val):
         if not isinstance(val, float):
             raise ValueError("step must be a float")
-        elif val <= 0:
+        elif not val > 0:
             raise ValueError("step must be positive")
         else:
             self._step = val
@@ -794,7 +794,7 @@ class ForestBase(BaseEstimator):
             else:
                 self._max_features = val
         elif isinstance(val, float):
-            if val > 1.0 or val <= 0.0:
+            if not 0.0 < val <= 1.0:
                 raise ValueError("max_features must be <= 1.0 and > 0.0")
             else:
                 self._max_features = val
@@ -826,7 +826,7 @@ class ForestBase(BaseEstimator):
             else:
                 return max_features
         elif isinstance(max_features, float):
-            if max_features > 1.0 or max_features <= 0.0:
+            if not 0.0 < max_features <= 1.0:
                 raise ValueError("max_features must be <= 1.0 and > 0.0")
             else:
                 return max(1, int(max_features*n_features))
@@ -1370,7 +1370,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         if not isinstance(val, float):
             raise ValueError("dirichlet must be a float")
         else:
-            if val < 0.0:
+            if not val >= 0.0:
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-- 
2.43.0


From 8176e949bad0bb8b07acb99b821ce843a4667237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:54 +0000
Subject: [PATCH 15/21] fix: reject cat_min_categories of unsupported types
 instead of ignoring them

---
 wildwood/preprocessing/encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 06fae46..5f64d49 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -755,3 +755,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 )
             else:
                 self._cat_min_categories = val
+        else:
+            raise ValueError(
+                f"cat_min_categories should be an int > 3 or either "
+                f"'log' or 'sqrt'; {val} was given"
+            )
-- 
2.43.0


From 69cf80e53ab5b735e325ea140a326552ed656a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 16/21] fix: the decision path of a sample in a one-node tree
 listed a split that is not there

---
 wildwood/_tree.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..3bd2057 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -751,7 +751,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -786,9 +786,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
-- 
2.43.0


From e5b718f7e301c5ad6c076d5f3e93d3b72e24d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 17/21] fix: depth and number of leaves of a tree could not be
 obtained

---
 wildwood/tree.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index b319e3e..df0bac2 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -99,6 +99,12 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.random_state = random_state
         self.verbose = verbose
 
+    def __sklearn_is_fitted__(self):
+        if self.is_classifier:
+            return self._tree_classifier is not None
+        else:
+            return self._tree_regressor is not None
+
     def get_depth(self):
         """Return the depth of the decision tree.
 
@@ -107,14 +113,11 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.max_depth : int
+        depth : int
             The maximum depth of the tree.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        return int(self.get_actual_depth())
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -125,14 +128,11 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.n_leaves : int
+        n_leaves : int
             Number of leaves.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        return int(sum(self.get_nodes().is_leaf))
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


From e62a7fbbb69ab083e89ecb859966581857179093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 18/21] fix: decision paths of a forest or of a regression tree
 could not be obtained

---
 wildwood/forest.py | 5 ++---
 wildwood/tree.py   | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 2a686be..771afeb 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -27,7 +27,7 @@ from sklearn.utils.validation import check_is_fitted
 # from ._binning import Binner
 from ._utils import split_strategy_mapping, criteria_mapping
 from .preprocessing._checks import get_is_categorical
-from .preprocessing import Encoder
+from .preprocessing import Encoder, features_bitarray_to_array
 
 
 eps = np.finfo("float32").eps
@@ -660,8 +660,7 @@ class ForestBase(BaseEstimator):
 
     def path_leaf(self, X, tree_idx=0):
         check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
+        X_binned = features_bitarray_to_array(self._encoder.transform(X))
         return self.trees[tree_idx].path_leaf(X_binned)
 
     @property
diff --git a/wildwood/tree.py b/wildwood/tree.py
index df0bac2..e38d912 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -441,6 +441,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
     def get_nodes(self):
         return get_nodes_regressor(self._tree_regressor)
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
 
 def serialize(obj):
     if isinstance(obj, _TreeClassifier):
-- 
2.43.0


From 7759cb730d8c2aa650a687bd698936db626336a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 19/21] fix: nodes never recorded whether they are a left child

---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 3bd2057..13eacba 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -615,6 +615,7 @@ def add_node_tree(
     node["parent"] = parent
     node["depth"] = depth
     node["is_leaf"] = is_leaf
+    node["is_left"] = is_left
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
     node["n_samples_valid"] = n_samples_valid
-- 
2.43.0


From 935467cb52ab57897ca8119b495338d8cf91368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 20/21] fix: columns holding missing values only could not be
 decoded

---
 wildwood/preprocessing/encoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f64d49..15da08b 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -545,8 +545,12 @@ class Encoder(TransformerMixin, BaseEstimator):
                 if has_missing_values:
                     binned_col[missing_mask] = 0
 
-                # Get back the categories from the codes
-                col = pd.Categorical(col_categories[binned_col])
+                # Get back the categories from the codes (a column with missing values
+                # only has no category)
+                if len(col_categories) == 0:
+                    col = pd.Categorical(np.full(binned_col.shape, np.nan))
+                else:
+                    col = pd.Categorical(col_categories[binned_col])
 
                 if has_missing_values:
                     # If it has missing values we need to put then back
-- 
2.43.0


From bea23f9282605ce2bde5401533d232e453037d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 21/21] fix: random depths were drawn from the global generator

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 771afeb..dd92504 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -391,7 +391,8 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth
+                    else check_random_state(random_state).randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -415,7 +416,8 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth
+                    else check_random_state(random_state).randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0

