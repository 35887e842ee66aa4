From 77c4960a52ab79b92fc3461c04af9d26fe26c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 01/34] fix: one edge feature per grid direction
 (neighborhood=8 was unusable)

---
 pystruct/utils/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..6087dcf 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,10 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    offset = 0
+    for direction, direction_edges in enumerate(edge_list):
+        end = offset + len(direction_edges)
+        edge_features[offset:end, direction] = 1
+        offset = end
     return edge_features
-- 
2.43.0


From 81845b6cea1752d15d3660ba40672d3e4afdfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 02/34] fix: loss-augmented inference of BinaryClf returned
 label 0 on ties

---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..35fbd94 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From 7a3abd4dccbfd8a4c53469d8213375ee45764f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 03/34] fix: LatentDirectionalGridCRF ignored its neighborhood
 parameter

---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From dcff4b78936cad2316a2c8280b3489813b2e0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 04/34] fix: LatentDirectionalGridCRF.loss_augmented_inference
 lacked return_energy

---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41e8d52..41dab4b 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -86,7 +86,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0


From 7142b6657433d5f6ffa55210c99c27a78c3b0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 05/34] fix: find_constraint_latent compares latent labelling
 with latent labelling

model.loss of latent models maps both arguments from latent states to
labels; passing the label instead of the latent completion compared
unrelated states.
---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From dd380eefb3830ad1e55560af02b7c961cbf037e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 06/34] fix: SubgradientLatentSSVM reads n_jobs, not j_jobs

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 1df96452278d417796c174276c106de6f21e0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 07/34] fix: SubgradientLatentSSVM.score compared labels with
 latent states

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From 76f9220a1ef306c714fe9b3f3c2569118b6f963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 08/34] fix: LatentSSVM.C setter overwrote the weights

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..aef7542 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -179,7 +179,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From 966a8da5c2b91d70d1f5680c52e038b83a4b564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 09/34] fix: LatentSSVM.fit ignored initialize and returned
 None

---
 pystruct/learners/latent_structured_svm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index aef7542..74b87dd 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -78,7 +78,8 @@ class LatentSSVM(BaseSSVM):
             Leave this true except if you really know what you are doing.
         """
 
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
@@ -125,6 +126,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From 4abb98bce28ce35f4b33a9165e3e32c9cc0ff0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 10/34] fix: OneSlackSSVM.constraint_equal passed pairwise
 marginals as axis

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..1f2fa0c 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,7 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From ff654dc95b9df680803bbc779ce6c3b8a88bed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 11/34] fix: SaveLogger restores the inference cache when
 saving fails

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..de3a54b 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -59,8 +59,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From a26bb53a8aaba54cd0c9cf80260b3f1f7a34a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 12/34] fix: SaveLogger with %d in file_name failed on the
 final save

---
 pystruct/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index de3a54b..44430d1 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,7 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                file_name = file_name.replace("%d", "%s") % iteration
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From 87e2b1938465b60cf29d59bc1672c3aa2df1a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 13/34] fix: SubgradientSSVM warm start shifted timestamps by
 the wall clock

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..15414ea 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -189,7 +189,8 @@ class SubgradientSSVM(BaseSSVM):
             else:
                 self.learning_rate_ = self.learning_rate
         else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+            # continue the clock where the last fit stopped
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From b95f4eed437899c4d0720f3fc177cecfd4570381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 14/34] fix: FrankWolfeSSVM passed true labels to models that
 take none

---
 pystruct/learners/frankwolfe_ssvm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..8a09ccd 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -126,13 +126,18 @@ class FrankWolfeSSVM(BaseSSVM):
         self.sample_method = sample_method
         self.random_state = random_state
 
+    def _batch_joint_feature(self, X, Y, Y_true):
+        if getattr(self.model, 'rescale_C', False):
+            return self.model.batch_joint_feature(X, Y, Y_true)
+        return self.model.batch_joint_feature(X, Y)
+
     def _calc_dual_gap(self, X, Y):
         n_samples = len(X)
         # FIXME don't calculate this again
-        joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
+        joint_feature_gt = self._batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self._batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -153,12 +158,12 @@ class FrankWolfeSSVM(BaseSSVM):
         """
         l = 0.0
         n_samples = float(len(X))
-        joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
+        joint_feature_gt = self._batch_joint_feature(X, Y, Y)
 
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self._batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From 85325e677798c0809b2c4a6d71b75e0dd45fe887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 15/34] fix: FrankWolfeSSVM failed when the dual gap was never
 computed

---
 pystruct/learners/frankwolfe_ssvm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 8a09ccd..9416a2d 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -210,6 +210,7 @@ class FrankWolfeSSVM(BaseSSVM):
         l_mat = np.zeros(n_samples)
         l = 0.0
         k = 0
+        dual_gap = np.inf
 
         rng = check_random_state(self.random_state)
         for iteration in range(self.max_iter):
@@ -308,7 +309,10 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if self.objective_curve_:
+            self.objective_curve_.append(self.objective_curve_[-1])
+        else:
+            self.objective_curve_.append(self._calc_dual_gap(X, Y)[0])
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From 6237379b6c615c1593c817d2a2e533aff59e295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 16/34] fix: NSlackSSVM failed when no constraint was ever
 added

---
 pystruct/learners/n_slack_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..d7a47f3 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -277,6 +277,7 @@ class NSlackSSVM(BaseSSVM):
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
+            objective = 0
         else:
             # warm start
             objective = self._solve_n_slack_qp(constraints, n_samples)
@@ -390,7 +391,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-- 
2.43.0


From 3b7cacc41ed4bb2fc1ab63821550bab0b351e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 17/34] fix: OneSlackSSVM failed when no constraint was ever
 added

---
 pystruct/learners/one_slack_ssvm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 1f2fa0c..1addfe0 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -452,6 +452,7 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
+        objective = self.objective_curve_[-1] if self.objective_curve_ else 0
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From 316d5c664f14a051cf38526a7b5c200aad7fd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 18/34] fix: OneSlackSSVM inference cache needs the true label
 under rescale_C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 1addfe0..a6a55dd 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -325,8 +325,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From aee207e391d1a6277b5a8deea0e7a54e1af1a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 19/34] fix: OneSlackSSVM cached one result more than
 inference_cache

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a6a55dd..3357a01 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -319,7 +319,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From 7c87b8e9744fcdd9e4d97723d45a40074385e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 20/34] fix: StructuredPerceptron.fit changed the average
 parameter

---
 pystruct/learners/structured_perceptron.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..480c39d 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -100,10 +100,10 @@ class StructuredPerceptron(BaseSSVM):
             self.model.initialize(X, Y)
         size_joint_feature = self.model.size_joint_feature
         self.w = np.zeros(size_joint_feature)
-        if self.average is not False:
-            if self.average is True:
-                self.average = 0
-            elif self.average < -1:
+        # True means averaging from the first iteration on
+        average = 0 if self.average is True else self.average
+        if average is not False:
+            if average < -1:
                 raise NotImplemented("The only negative value for averaging "
                                      "implemented at the moment is `-1`. Try "
                                      "`max_iter - k` but be aware of the "
@@ -114,7 +114,7 @@ class StructuredPerceptron(BaseSSVM):
         max_losses = np.sum([self.model.max_loss(y) for y in Y])
         try:
             for iteration in range(self.max_iter):
-                if self.average == -1:
+                if average == -1:
                     # By resetting at every iteration we effectively get
                     # averaging over the last one.
                     n_obs = 0
@@ -134,7 +134,7 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                    if self.average is not False and iteration >= self.average:
+                    if average is not False and iteration >= average:
                         n_obs += 1
                         w_bar = ((1 - 1. / n_obs) * w_bar +
                                  (1. / n_obs) * self.w)
@@ -147,8 +147,8 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                        if (self.average is not False and
-                                iteration >= self.average):
+                        if (average is not False and
+                                iteration >= average):
                             n_obs += 1
                             w_bar = ((1 - 1. / n_obs) * w_bar +
                                      (1. / n_obs) * self.w)
@@ -165,6 +165,6 @@ class StructuredPerceptron(BaseSSVM):
         except KeyboardInterrupt:
             pass
         finally:
-            if self.average is not False:
+            if average is not False:
                 self.w = w_bar
         return self
-- 
2.43.0


From eed271e6025482a7ef3a6fa22b3c8593877215eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 21/34] fix: StructuredPerceptron raised NotImplemented, which
 is not an exception

---
 pystruct/learners/structured_perceptron.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 480c39d..12f2021 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,10 +104,10 @@ class StructuredPerceptron(BaseSSVM):
         average = 0 if self.average is True else self.average
         if average is not False:
             if average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+                raise NotImplementedError("The only negative value for averaging "
+                                          "implemented at the moment is `-1`. Try "
+                                          "`max_iter - k` but be aware of the "
+                                          "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
-- 
2.43.0


From 69022030e89e2e8bd17259650074dc7a63a886cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 22/34] fix: StructuredPerceptron never called its logger

---
 pystruct/learners/structured_perceptron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 12f2021..883b98e 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -157,6 +157,8 @@ class StructuredPerceptron(BaseSSVM):
                     print("avg loss: %f w: %s" % (self.loss_curve_[-1],
                                                   str(self.w)))
                     print("effective learning rate: %f" % effective_lr)
+                if self.logger is not None:
+                    self.logger(self, iteration)
                 if self.loss_curve_[-1] == 0:
                     if self.verbose:
                         print("Loss zero. Stopping.")
@@ -167,4 +169,6 @@ class StructuredPerceptron(BaseSSVM):
         finally:
             if average is not False:
                 self.w = w_bar
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
-- 
2.43.0


From 64e5b3a7ffc182ee5a9fbbd8ff28e120e3e53510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 23/34] fix: max-product tells chains and forests apart by
 their number of edges

is_chain compared index arrays of any length, so broadcasting accepted two
nodes with no edge (viterbi then read past the potentials) or with repeated
edges; is_forest recomputed the number of vertices it was given and failed on
graphs without edges.
---
 pystruct/inference/maxprod.py     | 3 ++-
 pystruct/utils/graph_functions.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..bfd4e4b 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,7 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
-- 
2.43.0


From e73271b3720243323278baa162f69468a8e2b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 24/34] fix: normalise both directions of loopy max-product
 messages

The second direction subtracted the maximum of the old message, so constants
accumulated and drowned the beliefs on long loopy graphs; the tolerance given
to inference_max_product was not passed on either.
---
 pystruct/inference/maxprod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..f76c469 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
@@ -154,7 +154,7 @@ def iterative_max_product(unary_potentials, pairwise_potentials, edges,
                       - messages[e, 0])
             old_message = messages[e, 1].copy()
             new_message = np.max(update, axis=1)
-            new_message -= np.max(messages[e, 1])
+            new_message -= np.max(new_message)
             new_message = damping * old_message + (1 - damping) * new_message
             messages[e, 1] = new_message
             update = new_message - old_message
-- 
2.43.0


From 71cd8c6ed73492b7e45b82428e479e0000f20073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 25/34] fix: honour return_energy for qpbo, unary and
 max-product inference

---
 pystruct/inference/inference_methods.py | 33 ++++++++++++++++---------
 pystruct/inference/maxprod.py           | 11 +++++++--
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..b96cdc9 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .linear_programming import lp_general_graph
 from .maxprod import inference_max_product
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 
 def get_installed(method_filter=None):
     if method_filter is None:
@@ -98,7 +98,7 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         kwargs.update(additional_kwargs)
     if inference_method == "qpbo":
         return inference_qpbo(unary_potentials, pairwise_potentials, edges,
-                              **kwargs)
+                              return_energy=return_energy, **kwargs)
     elif inference_method == "lp":
         return inference_lp(unary_potentials, pairwise_potentials, edges,
                             return_energy=return_energy, **kwargs)
@@ -113,10 +113,11 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
                              return_energy=return_energy, **kwargs)
     elif inference_method == "unary":
         return inference_unaries(unary_potentials, pairwise_potentials, edges,
-                                 **kwargs)
+                                 return_energy=return_energy, **kwargs)
     elif inference_method == "max-product":
         return inference_max_product(unary_potentials, pairwise_potentials,
-                                     edges, **kwargs)
+                                     edges, return_energy=return_energy,
+                                     **kwargs)
     else:
         raise ValueError("inference_method must be 'max-product', 'lp', 'ad3',"
                          " 'qpbo' or 'ogm', got %s" % inference_method)
@@ -239,7 +240,8 @@ def inference_ogm(unary_potentials, pairwise_potentials, edges,
     return res
 
 
-def inference_qpbo(unary_potentials, pairwise_potentials, edges, **kwargs):
+def inference_qpbo(unary_potentials, pairwise_potentials, edges,
+                   return_energy=False, **kwargs):
     """Inference with PyQPBO backend.
 
     Used QPBO-I based move-making for undergenerating inference.
@@ -272,12 +274,16 @@ def inference_qpbo(unary_potentials, pairwise_potentials, edges, **kwargs):
     n_states, pairwise_potentials = \
         _validate_params(unary_potentials, pairwise_potentials, edges)
 
-    unary_potentials = (-1000 * unary_potentials).copy().astype(np.int32)
-    unary_potentials = unary_potentials.reshape(-1, n_states)
-    pairwise_potentials = (-1000 * pairwise_potentials).copy().astype(np.int32)
+    unaries = (-1000 * unary_potentials).copy().astype(np.int32)
+    unaries = unaries.reshape(-1, n_states)
+    pairwise = (-1000 * pairwise_potentials).copy().astype(np.int32)
     edges = edges.astype(np.int32).copy()
-    y = alpha_expansion_general_graph(edges, unary_potentials,
-                                      pairwise_potentials, random_seed=1)
+    y = alpha_expansion_general_graph(edges, unaries, pairwise,
+                                      random_seed=1)
+    if return_energy:
+        energy = -compute_energy(unary_potentials.reshape(-1, n_states),
+                                 pairwise_potentials, edges, y)
+        return y.reshape(shape_org), energy
     return y.reshape(shape_org)
 
 
@@ -541,7 +547,7 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
 
 
 def inference_unaries(unary_potentials, pairwise_potentials, edges, verbose=0
-                      , **kwargs):
+                      , return_energy=False, **kwargs):
     """Inference that only uses unary potentials.
 
     This methods can be used as a sanity check, as acceleration if no
@@ -575,4 +581,7 @@ def inference_unaries(unary_potentials, pairwise_potentials, edges, verbose=0
         _validate_params(unary_potentials, pairwise_potentials, edges)
 
     unaries = unary_potentials.reshape(-1, n_states)
-    return np.argmax(unaries, axis=-1)
+    y = np.argmax(unaries, axis=-1)
+    if return_energy:
+        return y, -compute_energy(unaries, pairwise_potentials, edges, y)
+    return y
diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index f76c469..6d2e3f8 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy import sparse
 
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 from ..utils.graph_functions import is_forest
 
 
@@ -21,7 +21,8 @@ def is_chain(edges, n_vertices):
 
 
 def inference_max_product(unary_potentials, pairwise_potentials, edges,
-                          max_iter=30, damping=0.5, tol=1e-5, relaxed=None):
+                          max_iter=30, damping=0.5, tol=1e-5, relaxed=None,
+                          return_energy=False):
     """Max-product inference.
 
     In case the edges specify a tree, dynamic programming is used
@@ -47,6 +48,9 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
 
     tol : float (default=1e-5)
         Stopping tollerance for loopy message passing.
+
+    return_energy : bool (default=False)
+        Additionally return the energy of the returned solution.
     """
     from ._viterbi import viterbi
     n_states, pairwise_potentials = \
@@ -60,6 +64,9 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
                                   max_iter=max_iter, damping=damping, tol=tol)
+    if return_energy:
+        return y, -compute_energy(unary_potentials, pairwise_potentials, edges,
+                                  y)
     return y
 
 
-- 
2.43.0


From 2f3a768d80334489f8a294fcb276b46a70e8ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 26/34] fix: tree max-product mixed tied solutions because
 every node was decoded alone

---
 pystruct/inference/maxprod.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 6d2e3f8..0aad7ea 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -82,7 +82,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -117,20 +116,16 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from the roots: given its parent's label, every node takes its
+    # best label (deciding each node on its own would mix tied solutions)
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
         parent = parents[node]
+        belief = unary_potentials[node] + messages_backward[node]
         if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+            belief = belief + pw_forward[node][y[parent]]
+        y[node] = np.argmax(belief)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 17bdf1dd0c9a768ea5311a146d969db10f6a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 27/34] fix: ad3 ignored inference_exception for graphs with
 one node type

---
 pystruct/inference/inference_methods.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index b96cdc9..ad75aa1 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -417,11 +417,10 @@ def inference_ad3(unary_potentials, pairwise_potentials, edges, relaxed=False,
             y = (unary_marginals, pairwise_marginals)
         #print solver_status, pairwise_marginals
     else:
+        if inference_exception and solver_status in ["fractional", "unsolved"]:
+            raise InferenceException(solver_status)
         if bMultiType:
             #we now get a list of unary marginals
-            if inference_exception and solver_status in ["fractional"
-                                                         , "unsolved"]:
-                raise InferenceException(solver_status)
             ly = list()
             _cum_n_states = 0
             for unary_marg in unary_marginals:
-- 
2.43.0


From 2d1b36833e8c6a0a2e38682b44e6f9557c55b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 28/34] fix: TypedCRF.setInferenceException had no effect

---
 pystruct/models/crf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..481db86 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -115,7 +115,14 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._inference_options())
+
+    def _inference_options(self):
+        # options of the model that inference has to honour, if any
+        if getattr(self, 'inference_exception', False):
+            return dict(inference_exception=True)
+        return {}
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -174,10 +181,12 @@ class CRF(StructuredModel):
                                       self.inference_method,
                                       relaxed=relaxed,
                                       return_energy=return_energy,
-                                      constraints=constraints)
+                                      constraints=constraints,
+                                      **self._inference_options())
         else:
             return inference_dispatch(unary_potentials, pairwise_potentials,
                                       edges,
                                       self.inference_method,
                                       relaxed=relaxed,
-                                      return_energy=return_energy)
+                                      return_energy=return_energy,
+                                      **self._inference_options())
-- 
2.43.0


From 7fb0258b60ab926e49e60227956e79540c48b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 29/34] fix: N-slack and 1-slack learners can continue from any
 earlier state

NSlackSSVM.fit with constraints failed on a learner without an earlier fit,
on constraints of another fit and when every list of constraints was empty.
OneSlackSSVM.fit(warm_start=True) failed when the earlier fit had found no
violated constraint.
---
 pystruct/learners/n_slack_ssvm.py   | 14 +++++++++++++-
 pystruct/learners/one_slack_ssvm.py |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index d7a47f3..47aed32 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -280,7 +280,19 @@ class NSlackSSVM(BaseSSVM):
             objective = 0
         else:
             # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            if not hasattr(self, 'timestamps_'):
+                # no earlier fit to continue the curves of
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            if ([len(active) for active in getattr(self, 'last_active', [])]
+                    != [len(sample) for sample in constraints]):
+                # constraints of unknown activity
+                self.last_active = [np.zeros(len(sample))
+                                    for sample in constraints]
+            objective = 0
+            if any(len(sample) for sample in constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 3357a01..ec5b506 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -454,6 +454,7 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        self.constraints_ = constraints
         self.last_slack_ = -1
         objective = self.objective_curve_[-1] if self.objective_curve_ else 0
 
-- 
2.43.0


From ce80316afd6cbd78efe765d2a04c959b88954d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 30/34] fix: a cold fit does not mix in the state of an earlier
 one

FrankWolfeSSVM.fit started from the weights of the earlier fit with dual
variables of zero; the training loss curve grew over fits while all other
curves start again.
---
 pystruct/learners/frankwolfe_ssvm.py         | 7 +++++--
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 9416a2d..f8247c9 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -296,8 +296,11 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        self._forget_training_loss()
+        # the weights of an earlier fit do not belong to the dual variables
+        # this fit starts with
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 47aed32..8818864 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -277,6 +277,7 @@ class NSlackSSVM(BaseSSVM):
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
+            self._forget_training_loss()
             objective = 0
         else:
             # warm start
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index ec5b506..d3e3e53 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -443,6 +443,7 @@ class OneSlackSSVM(BaseSSVM):
             self.alphas.append([self.C])
             self.inference_cache_ = None
             self.timestamps_ = [time()]
+            self._forget_training_loss()
         elif warm_start == "soft":
             self.w = np.zeros(self.model.size_joint_feature)
             constraints = []
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..68245d2 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -83,6 +83,11 @@ class BaseSSVM(BaseEstimator):
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
+    def _forget_training_loss(self):
+        # training starts from scratch, drop the curve of an earlier fit
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _compute_training_loss(self, X, Y, iteration):
         # optionally compute training loss for output / training curve
         if (self.show_loss_every != 0
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index d8a09f0..33dba13 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -137,6 +137,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
             self.timestamps_ = [time()]
+            self._forget_training_loss()
             self.objective_curve_ = []
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 15414ea..842b772 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -184,6 +184,7 @@ class SubgradientSSVM(BaseSSVM):
         if not warm_start:
             self.objective_curve_ = []
             self.timestamps_ = [time()]
+            self._forget_training_loss()
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
             else:
-- 
2.43.0


From 3d1a6e08d4da959c9cb77252ba702ef105e9131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 31/34] fix: FrankWolfeSSVM can be the solver of a LatentSSVM

LatentSSVM passes warm_start from its second iteration on.
---
 pystruct/learners/frankwolfe_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index f8247c9..8f5d99b 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -273,7 +273,7 @@ class FrankWolfeSSVM(BaseSSVM):
             if dual_gap < self.tol:
                 return
 
-    def fit(self, X, Y, constraints=None, initialize=True):
+    def fit(self, X, Y, constraints=None, initialize=True, warm_start=False):
         """Learn parameters using (block-coordinate) Frank-Wolfe learning.
 
         Parameters
@@ -291,6 +291,8 @@ class FrankWolfeSSVM(BaseSSVM):
         initialize : boolean, default=True
             Whether to initialize the model for the data.
             Leave this true except if you really know what you are doing.
+
+        warm_start : ignored
         """
         if initialize:
             self.model.initialize(X, Y)
-- 
2.43.0


From a92b3d8c01fc085c37ddadbe6f38bd5c9fdad538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 32/34] fix: TypedCRF.initialize checks the data again

The checks were wrapped in map(), which is lazy on Python 3, so lists of
instances were never looked at.
---
 pystruct/models/typed_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..4568499 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,11 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From 9b6c8f2ac1fa35000a221218b22f71afa2be6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 33/34] fix: GridCRF.inference accepts constraints like every
 other CRF

predict(X, constraints=...) failed with a TypeError on grids.
---
 pystruct/models/grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/grid_crf.py b/pystruct/models/grid_crf.py
index de0f3e1..b7635ba 100644
--- a/pystruct/models/grid_crf.py
+++ b/pystruct/models/grid_crf.py
@@ -61,9 +61,11 @@ class GridCRF(GraphCRF):
             return y, energy
         return y
 
-    def inference(self, x, w, relaxed=False, return_energy=False):
+    def inference(self, x, w, relaxed=False, return_energy=False,
+                  constraints=None):
         y = GraphCRF.inference(self, x, w, relaxed=relaxed,
-                               return_energy=return_energy)
+                               return_energy=return_energy,
+                               constraints=constraints)
         return self._reshape_y(y, x.shape, return_energy)
 
     def loss_augmented_inference(self, x, y, w, relaxed=False,
-- 
2.43.0


From ce73a0f32d82d97b6eb66893965d854d7ea9780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 34/34] fix: inference_ogm names the algorithm it does not know

An unknown algorithm ended in an UnboundLocalError.
---
 pystruct/inference/inference_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index ad75aa1..a9e0954 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -228,6 +228,8 @@ def inference_ogm(unary_potentials, pairwise_potentials, edges,
         inference = opengm.inference.Mqpbo(gm)
     elif alg == 'alphaexp':
         inference = opengm.inference.AlphaExpansion(gm)
+    else:
+        raise ValueError("Unknown OpenGM algorithm, got %s" % alg)
     if init is not None:
         inference.setStartingPoint(init)
 
-- 
2.43.0

