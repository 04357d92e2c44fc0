From c89813c614031a65b879bdad61f190d5f38daf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 01/16] fix: BaseTransformer.fit passed (x, None) pairs instead
 of instances to fit_partial

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From 54fe7f902628e4633b2d86a07f71f06162d191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 02/16] fix: RobustRandomCutForest kept tree_size + 1 leaves
 and never forgot the first instance

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From a2ea256831b3d62a245ba17b2dc5d0a2aec13d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 03/16] fix: HalfSpaceTrees crashed on an initial_window_X
 array

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From 8d3ae0442dff750664b5ddeac94c4755badb020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 04/16] fix: VarianceMeter could return a negative variance
 through rounding

---
 pysad/statistics/variance_meter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..1e37d73 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -62,4 +62,4 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        return max(var, 0.0)
-- 
2.43.0


From 41d33b41fb1eeb1fa11e01d6b94353414f28dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 05/16] fix: GaussianTailProbabilityCalibrator windowed the
 variance although running_statistics is False

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From 27971c293f43edf5c52c43b256680145db8d6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 06/16] fix: RunningStatistic did not pass its keyword
 arguments to statistic_cls

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 147dd113933764ca8b0efa742d5fee6052727473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 07/16] fix: WindowedMetric dropped the metric's keyword
 arguments after the first window

---
 pysad/evaluation/windowed_metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..7d57b6e 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -21,6 +21,7 @@ class WindowedMetric(BaseMetric):
         self.ignore_nonempty_last = ignore_nonempty_last
         self.window_size = window_size
         self.metric_cls = metric_cls
+        self.kwargs = kwargs
 
         self.metric = self._init_metric(**kwargs)
 
@@ -51,7 +52,7 @@ class WindowedMetric(BaseMetric):
             self.num_windows += 1
             score = self.metric.get()
             self.score_meter.update(score)
-            self.metric = self._init_metric()
+            self.metric = self._init_metric(**self.kwargs)
 
         return self
 
-- 
2.43.0


From afaa2d644bc09235fa68580eb9a33a0c1b1910e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 08/16] fix: random projectors drew a new random matrix for
 every instance

---
 pysad/transform/projection/random_projector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..66ca0bd 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -43,7 +44,10 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        if self._fitted_projector is None:
+            self._fitted_projector = self._projector().fit(x)
+
+        return self._fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From 472407a741a9615b8b87e2d86f9761f921478563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:22 +0000
Subject: [PATCH 09/16] fix: KNNCAD kept every instance of the stream although
 only the last dim are used

---
 pysad/models/knn_cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
-- 
2.43.0


From 7ad0eaf76c795473fa2395442aa90216e2b53297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 10/16] fix: RelativeEntropy kept every instance of the stream
 although only the last window is used

---
 pysad/models/relative_entropy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..5455cc5 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(X)
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From a065682901f20c5175247e7c153f44bfb8fd0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 11/16] fix: Inqmad scored with the density matrix captured by
 jit at the first score

---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From e9e0fc00fba3dd0b2f110474112559b7c2a2cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 12/16] fix: ReferenceWindowModel crashed on its first instance
 with window_size=1

---
 pysad/models/integrations/reference_window_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..ae4c90b 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -63,9 +63,10 @@ class ReferenceWindowModel(PYODModel):
         if y is not None:
             self.cur_window_y.append(y)
 
-        if not self.initial_ref_window and len(
-                self.cur_window_X) < self.window_size and (
-                self.reference_window_X is None or len(self.reference_window_X) < self.window_size):
+        if self.reference_window_X is None or (
+                not self.initial_ref_window and len(
+                self.cur_window_X) < self.window_size and
+                len(self.reference_window_X) < self.window_size):
             self.reference_window_X = self.cur_window_X.copy()
             self.reference_window_y = self.cur_window_y.copy() if y is not None else None
             self._fit_model()
-- 
2.43.0


From 248b003829649a5d35ffd7ba1b8ba34e1c045eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 13/16] fix: ReferenceWindowModel crashed or fitted misaligned
 labels when only part of the window is labelled

---
 pysad/models/integrations/reference_window_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index ae4c90b..4a8a693 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -63,12 +63,14 @@ class ReferenceWindowModel(PYODModel):
         if y is not None:
             self.cur_window_y.append(y)
 
+        labelled = len(self.cur_window_y) == len(self.cur_window_X)
+
         if self.reference_window_X is None or (
                 not self.initial_ref_window and len(
                 self.cur_window_X) < self.window_size and
                 len(self.reference_window_X) < self.window_size):
             self.reference_window_X = self.cur_window_X.copy()
-            self.reference_window_y = self.cur_window_y.copy() if y is not None else None
+            self.reference_window_y = self.cur_window_y.copy() if labelled else None
             self._fit_model()
         elif len(self.cur_window_X) % self.sliding_size == 0:
             self.reference_window_X = np.concatenate(
@@ -76,11 +78,13 @@ class ReferenceWindowModel(PYODModel):
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
-            if y is not None:
+            if labelled and self.reference_window_y is not None:
                 self.reference_window_y = np.concatenate(
                     [self.reference_window_y, self.cur_window_y], axis=0)
                 self.reference_window_y = self.reference_window_y[max(
                     0, len(self.reference_window_y) - self.window_size):]
+            else:
+                self.reference_window_y = None
 
             self.cur_window_X = []
             self.cur_window_y = []
-- 
2.43.0


From 87d35e9ad5c9d1fc8a22c353531657f91e229ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 14/16] fix: RSHash ignored constant features when the feature
 ranges were given as lists

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index b3645b2..1124f47 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -136,7 +136,7 @@ class RSHash(BaseModel):
             all_feats = np.array(list(range(self.dim)), dtype=np.int32)
 
             # Use boolean indexing to avoid deprecated nonzero on 0d arrays
-            mask = (self.minimum != self.maximum)
+            mask = (np.array(self.minimum) != np.array(self.maximum))
             
             # Handle the case when mask is a scalar boolean (occurs when minimum/maximum are scalars)
             if isinstance(mask, bool):
-- 
2.43.0


From 414a9a08ff207bd4e78ba918d177b4ea0831f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:11 +0000
Subject: [PATCH 15/16] fix: Data.get_iterator shuffled after the seed could
 have been overwritten

---
 pysad/utils/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..43411f4 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -103,4 +103,5 @@ class Data:
 
         X, y = self.get_data(data_file)
 
-        return iterator.iter(X, y)
+        # The order is drawn here, while the seed is in effect.
+        return iter(list(iterator.iter(X, y)))
-- 
2.43.0


From 9f537da563beb726242dc8fb08680e1521fc0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:21 +0000
Subject: [PATCH 16/16] fix: KitNET crashed when constructed with a feature map

---
 pysad/models/kitnet_model/KitNET.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/kitnet_model/KitNET.py b/pysad/models/kitnet_model/KitNET.py
index 8fd4d37..3a0ca43 100644
--- a/pysad/models/kitnet_model/KitNET.py
+++ b/pysad/models/kitnet_model/KitNET.py
@@ -36,14 +36,14 @@ class KitNET:
         self.n_trained = 0 # the number of training instances so far
         self.n_executed = 0 # the number of executed instances so far
         self.v = feature_map
+        self.FM = CC.corClust(self.n) #incremental feature cluatering for the feature mapping process
+        self.ensembleLayer = []
+        self.outputLayer = None
         if self.v is None:
             print("Feature-Mapper: train-mode, Anomaly-Detector: off-mode")
         else:
             self.__createAD__()
             print("Feature-Mapper: execute-mode, Anomaly-Detector: train-mode")
-        self.FM = CC.corClust(self.n) #incremental feature cluatering for the feature mapping process
-        self.ensembleLayer = []
-        self.outputLayer = None
 
     #If FM_grace_period+AM_grace_period has passed, then this function executes KitNET on x. Otherwise, this function learns from x.
     #x: a numpy array of length n
-- 
2.43.0

