From 2013b8beb07b8836c70d7915c95b38c667444ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 01/52] fix: give every kind of grid edge its own feature
 column (8-connected directional grids)

---
 pystruct/utils/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..0eb6224 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,11 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    # one indicator column per kind of edge (two for a 4-connected grid,
+    # four for an 8-connected one)
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, kind in enumerate(edge_list):
+        edge_features[start:start + len(kind), i] = 1
+        start += len(kind)
     return edge_features
-- 
2.43.0


From a766f98af490798fde6776a208990d27aebda072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 02/52] fix: LatentDirectionalGridCRF passes its neighborhood
 on to the grid

---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From 58ac932453f112c02ed87f1e84c3a71eb4e05fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 03/52] fix: accept integer class weights (compiled loss
 augmentation wants doubles)

---
 pystruct/models/base.py      | 3 ++-
 pystruct/models/typed_crf.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 8e3fa44..35ac52b 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -112,7 +112,8 @@ class StructuredModel(object):
             if len(self.class_weight) != n_things:
                 raise ValueError("class_weight must have length n_states or"
                                  " be None")
-            self.class_weight = np.array(self.class_weight)
+            # the compiled loss augmentation wants doubles
+            self.class_weight = np.array(self.class_weight, dtype=np.float64)
             self.uniform_class_weight = False
         else:
             self.class_weight = np.ones(n_things)
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..90418b2 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -86,7 +86,7 @@ class TypedCRF(CRF):
                                      " per node type. Wrong for type %d" % i)
 
             # class weights are computed by type and simply concatenated
-            self.l_class_weight = [np.asarray(class_weight)
+            self.l_class_weight = [np.asarray(class_weight, dtype=np.float64)
                                    for class_weight in l_class_weight]
         else:
             self.l_class_weight = [np.ones(n) for n in self.l_n_states]
-- 
2.43.0


From 2f0f99e0b8083c68e39b0e6a8e53c99096287262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 04/52] fix: MultiLabelClf class weights have one entry per
 state (out of bounds read with a single label)

---
 pystruct/models/multilabel_svm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..40e4122 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -48,6 +48,12 @@ class MultiLabelClf(CRF):
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
                                        self.edges.shape[0])
 
+    def _set_class_weight(self):
+        # the loss of a label is weighted by its state, so there is one weight
+        # per state, not per label
+        self.class_weight = np.ones(self.n_states)
+        self.uniform_class_weight = True
+
     def initialize(self, X, Y):
         n_features = X.shape[1]
         if self.n_features is None:
-- 
2.43.0


From 9ca5fa9c7da638472604e81cc0f2386a97217719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 05/52] fix: BinaryClf loss-augmented inference returns a label
 when the margin is exactly one

---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..35fbd94 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From c8881bd4eeec3be8b7f220bcaee334c9517e41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 06/52] fix: is_chain compares the number of edges
 (broadcasting took a graph without edges for a chain)

---
 pystruct/inference/maxprod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
-- 
2.43.0


From 8120a77a8a7b094b094bd60c967b767f65c83b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 07/52] fix: is_forest keeps the given number of vertices
 (failed on graphs without edges)

---
 pystruct/utils/graph_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..fba1051 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,7 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1 if len(edges) else 0
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
-- 
2.43.0


From bf4d81a9f112d72be2ea501186d4bad50f788904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 08/52] fix: tree max-product returns one maximizer, also if
 there are several

---
 pystruct/inference/maxprod.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..0aea27d 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -75,7 +75,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -110,20 +109,17 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # from root to leaves, pick the best state given the state of the parent
+    # (maximizing each node on its own is inconsistent if there are ties)
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
+        score = unary_potentials[node] + messages_backward[node]
         parent = parents[node]
         if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
+            score = score + pw_forward[node][y[parent]]
+        y[node] = np.argmax(score)
 
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 4206d05344e981cb74da201cf95f71ea49de242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 09/52] fix: inference_ad3 raises the requested
 InferenceException for single-type graphs too

---
 pystruct/inference/inference_methods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..12e035f 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -411,11 +411,11 @@ def inference_ad3(unary_potentials, pairwise_potentials, edges, relaxed=False,
             y = (unary_marginals, pairwise_marginals)
         #print solver_status, pairwise_marginals
     else:
+        if inference_exception and solver_status in ["fractional"
+                                                     , "unsolved"]:
+            raise InferenceException(solver_status)
         if bMultiType:
             #we now get a list of unary marginals
-            if inference_exception and solver_status in ["fractional"
-                                                         , "unsolved"]:
-                raise InferenceException(solver_status)
             ly = list()
             _cum_n_states = 0
             for unary_marg in unary_marginals:
-- 
2.43.0


From dd23278cab914f83eaee26e9c7b49c553f3c3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 10/52] fix: inference_max_product passes its stopping
 tolerance on to loopy message passing

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 0aea27d..16ce4bd 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
-- 
2.43.0


From f0516b7ba41caeb864656799b59d4e10d2eb9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 11/52] fix: TypedCRF.initialize checks the data (map is lazy
 in Python 3)

---
 pystruct/models/typed_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 90418b2..db9a810 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,11 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From 0d3fb6d0dc95272e1a698776ab121b6e8bf03670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 12/52] fix: unflattenY accepts samples without nodes of some
 type (given as None)

---
 pystruct/models/typed_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index db9a810..6864be5 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -138,7 +138,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         i_start_node = 0
-        (l_node_features, l_edges, l_edge_features) = X
+        l_node_features = self._get_node_features(X)
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
             n_nodes = nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
-- 
2.43.0


From cb09434a4a36acfa30a5be9912751a618c7156f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 13/52] fix: setInferenceException reaches the inference method

---
 pystruct/models/crf.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..3486593 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -115,7 +115,8 @@ class CRF(StructuredModel):
 
         return inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                   self.inference_method, relaxed=relaxed,
-                                  return_energy=return_energy)
+                                  return_energy=return_energy,
+                                  **self._inference_options())
 
     def inference(self, x, w, relaxed=False, return_energy=False,
                   constraints=None):
@@ -168,16 +169,16 @@ class CRF(StructuredModel):
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
 
+        options = self._inference_options()
         if constraints:
-            return inference_dispatch(unary_potentials, pairwise_potentials,
-                                      edges,
-                                      self.inference_method,
-                                      relaxed=relaxed,
-                                      return_energy=return_energy,
-                                      constraints=constraints)
-        else:
-            return inference_dispatch(unary_potentials, pairwise_potentials,
-                                      edges,
-                                      self.inference_method,
-                                      relaxed=relaxed,
-                                      return_energy=return_energy)
+            options['constraints'] = constraints
+        return inference_dispatch(unary_potentials, pairwise_potentials,
+                                  edges, self.inference_method,
+                                  relaxed=relaxed,
+                                  return_energy=return_energy, **options)
+
+    def _inference_options(self):
+        # options for the solver, only given if they were asked for
+        if getattr(self, 'inference_exception', False):
+            return {'inference_exception': True}
+        return {}
-- 
2.43.0


From f24b9d15a154c547b669fa8f4ba8ce533d3a76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 14/52] fix: LatentDirectionalGridCRF.loss_augmented_inference
 can return the energy

---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41e8d52..41dab4b 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -86,7 +86,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0


From cbce698b697eb5d54045b8c00b3d140425d8ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:27 +0000
Subject: [PATCH 15/52] fix: hidden-node and hidden-state models forbid
 inadmissible states whatever the potentials

---
 pystruct/inference/common.py        | 13 +++++++++++++
 pystruct/models/latent_graph_crf.py |  5 +++--
 pystruct/models/latent_node_crf.py  | 25 +++++++++++++++----------
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/pystruct/inference/common.py b/pystruct/inference/common.py
index a43c2a4..96387ec 100644
--- a/pystruct/inference/common.py
+++ b/pystruct/inference/common.py
@@ -49,3 +49,16 @@ def compute_energy(unary_potentials, pairwise_potentials, edges, labels):
     for edge, pw in zip(edges, pairwise_potentials):
         energy += pw[labels[edge[0]], labels[edge[1]]]
     return energy
+
+
+def forbidding_potential(unary_potentials, pairwise_potentials, edges):
+    """Penalty that keeps a node out of a state, whatever the interactions.
+
+    More than a node can lose by going to any other state.
+    """
+    max_entry = np.maximum(np.max(unary_potentials), 1)
+    max_loss = 2 * np.max(np.abs(unary_potentials)) + 1
+    if len(edges):
+        degree = np.max(np.bincount(np.ravel(edges)))
+        max_loss += 2 * degree * np.max(np.abs(pairwise_potentials))
+    return np.maximum(1e2 * max_entry, max_loss)
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..14c7bcb 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -7,6 +7,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import forbidding_potential
 
 
 def kmeans_init(X, Y, all_edges, n_labels, n_states_per_label,
@@ -174,10 +175,10 @@ class LatentGraphCRF(GraphCRF):
         # forbid h that is incompoatible with y
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[other_states] = -1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        unary_potentials[other_states] = -forbidding_potential(
+            unary_potentials, pairwise_potentials, edges)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (self.label_from_latent(h) != y).any():
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..0e7b298 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -15,6 +15,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import forbidding_potential
 from ..utils import expand_sym, compress_sym
 
 
@@ -204,10 +205,11 @@ class LatentNodeCRF(GraphCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = -forbidding_potential(
+            unaries, self._get_pairwise_potentials(x, w), self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -232,10 +234,11 @@ class LatentNodeCRF(GraphCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        unary_potentials[np.arange(len(y)), y] = forbidding_potential(
+            unary_potentials[:len(y), :self.n_labels], pairwise_potentials,
+            edges)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
@@ -504,10 +507,11 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
-        max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        forbidden = -forbidding_potential(
+            unaries, self._get_pairwise_potentials(x, w), self._get_edges(x))
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -532,10 +536,11 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        unary_potentials[np.arange(len(y)), y] = forbidding_potential(
+            unary_potentials[:len(y), :self.n_labels], pairwise_potentials,
+            edges)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
-- 
2.43.0


From b8dc8fa58e022bcce915ccbe050ae679deaf696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 16/52] fix: EdgeFeatureLatentNodeCRF.joint_feature accepts
 graphs without edges

---
 pystruct/models/latent_node_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 0e7b298..eb727fe 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -614,7 +614,7 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             pw = [np.outer(unary_marginals[edge[0]].T,
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
-            pw = np.vstack(pw)
+            pw = np.array(pw).reshape(-1, self.n_states ** 2)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 5aaba2d995fe6c14b8065aed6a1894799b5dd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 17/52] fix: find_constraint_latent measures the loss between
 latent completions (took labels for hidden states)

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From c03a34fcfea42e16e657d21de43243ca2550a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 18/52] fix: cutting-plane learners survive training without
 any violated constraint

---
 pystruct/learners/n_slack_ssvm.py   | 4 +++-
 pystruct/learners/one_slack_ssvm.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..099a32e 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,6 +270,8 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # dual objective without any constraint
+        objective = 0
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
@@ -390,7 +392,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..eff1c8e 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -452,6 +452,8 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
+        # dual objective of the ground truth constraint
+        objective = 0
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From a622df3f50863be2bf26a3125989207a5115f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 19/52] fix: NSlackSSVM.fit accepts known constraints on a
 fresh learner

---
 pystruct/learners/n_slack_ssvm.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 099a32e..b5aae01 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -272,16 +272,24 @@ class NSlackSSVM(BaseSSVM):
         stopping_criterion = False
         # dual objective without any constraint
         objective = 0
+        if constraints is None or not hasattr(self, 'last_active'):
+            self.objective_curve_ = []
+            self.primal_objective_curve_ = []
+            self.timestamps_ = [time()]
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
             self.last_active = [[] for i in range(n_samples)]
-            self.objective_curve_ = []
-            self.primal_objective_curve_ = []
-            self.timestamps_ = [time()]
         else:
             # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            last_active = getattr(self, 'last_active', [])
+            if ([len(counts) for counts in last_active]
+                    != [len(sample) for sample in constraints]):
+                # not the constraints of the last fit
+                self.last_active = [np.zeros(len(sample))
+                                    for sample in constraints]
+            if any(len(sample) for sample in constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
-- 
2.43.0


From 8a92905abb3e9e079d9281685a9f6c3fa7b85201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 20/52] fix: OneSlackSSVM compares relaxed labelings in its
 cache without failing

---
 pystruct/learners/one_slack_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index eff1c8e..99c81b1 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,7 +298,8 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return (np.all(u_m_1 == u_m_2)
+                            and np.all(pw_m_1 == pw_m_2))
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-- 
2.43.0


From c414539e2068597672b4f08eda6be1cc0fe03c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 21/52] fix: OneSlackSSVM caches no more results per sample
 than inference_cache

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 99c81b1..9977c17 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -320,7 +320,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From 607e8cdb3e406d23caa866f23f03cf97c0a3ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 22/52] fix: OneSlackSSVM can cache results of models that
 rescale C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 9977c17..f7aaba2 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -326,8 +326,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From 1ce1c3af889c2323a8f68a8f6ce6af02ca910b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 23/52] fix: OneSlackSSVM heeds a given cache_tol when it
 reuses cached results

---
 pystruct/learners/one_slack_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index f7aaba2..3855981 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -363,8 +363,10 @@ class OneSlackSSVM(BaseSSVM):
         loss_mean = loss_mean / len(X)
 
         violation = loss_mean - np.dot(self.w, djoint_feature)
+        # a given cache_tol replaces tol, 'auto' is only about the gap
+        tol = self.tol if self.cache_tol == 'auto' else self.cache_tol_
         if self._check_bad_constraint(violation, djoint_feature, loss_mean, constraints,
-                                      break_on_bad=False):
+                                      break_on_bad=False, tol=tol):
             if self.verbose > 1:
                 print("No constraint from cache.")
             raise NoConstraint
-- 
2.43.0


From 8c29de0073decd1d3df972956dcf916e84b897c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 24/52] fix: FrankWolfeSSVM.fit does not start from the weights
 of a previous fit

---
 pystruct/learners/frankwolfe_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..995c2fe 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -290,8 +290,9 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        # the dual variables start at zero, w and l have to match them
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From bdd8b5456a82893e03fd054cca82ccb69a1d6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 25/52] fix: FrankWolfeSSVM can be trained without checking the
 dual

---
 pystruct/learners/frankwolfe_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 995c2fe..1e1bfde 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -205,6 +205,7 @@ class FrankWolfeSSVM(BaseSSVM):
         l_mat = np.zeros(n_samples)
         l = 0.0
         k = 0
+        dual_gap = np.inf
 
         rng = check_random_state(self.random_state)
         for iteration in range(self.max_iter):
@@ -304,7 +305,8 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        if self.objective_curve_:
+            self.objective_curve_.append(self.objective_curve_[-1])
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From f5998ce14fef131d72f98bca100a7315a3d86fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 26/52] fix: FrankWolfeSSVM can train BinaryClf and models that
 rescale C

---
 pystruct/learners/frankwolfe_ssvm.py | 6 ++++--
 pystruct/models/unstructured_svm.py  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 1e1bfde..56f55ac 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,8 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = (joint_feature_gt
+                          - self.model.batch_joint_feature(X, Y_hat, Y))
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +159,8 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = (joint_feature_gt
+                              - self.model.batch_joint_feature(X, Y_hat, Y))
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 35fbd94..e740b33 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
-- 
2.43.0


From 0816b4da97420803baa4b5acabdd0d64be298ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 27/52] fix: SubgradientSSVM mini-batches work with models that
 rescale C

---
 pystruct/learners/subgradient_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..81f576c 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,9 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                delta_joint_feature = (
+                    self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                    - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From c0fb2f533919119c5b72fb6eef8bc2ae83c25976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 28/52] fix: StructuredPerceptron raises NotImplementedError
 for unsupported averaging

---
 pystruct/learners/structured_perceptron.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..5fcde38 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,10 +104,11 @@ class StructuredPerceptron(BaseSSVM):
             if self.average is True:
                 self.average = 0
             elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+                raise NotImplementedError(
+                    "The only negative value for averaging "
+                    "implemented at the moment is `-1`. Try "
+                    "`max_iter - k` but be aware of the "
+                    "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
-- 
2.43.0


From c1f7ad57f48a88682a7b69df9815cf0f3af6d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 29/52] fix: SubgradientLatentSSVM can run with several jobs

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 0b065acc597bbd52424f527f4175743c098f780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 30/52] fix: SubgradientLatentSSVM.score compares labels with
 labels, not with hidden states

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From a7d28ee138a64244910f84ec641fb49ea6d0570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 31/52] fix: setting C of a LatentSSVM does not overwrite its
 weights

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..aef7542 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -179,7 +179,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From ffa75276e2fc2c82598208365b20f7e2dd0be37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 32/52] fix: LatentSSVM.fit heeds initialize

---
 pystruct/learners/latent_structured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index aef7542..d129056 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -77,8 +77,8 @@ class LatentSSVM(BaseSSVM):
             Whether to initialize the model for the data.
             Leave this true except if you really know what you are doing.
         """
-
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
-- 
2.43.0


From 345f0b7514484e0d8f00849285a27d0d3cfdad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 33/52] fix: LatentSSVM.fit returns the learner as the other
 learners do

---
 pystruct/learners/latent_structured_svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index d129056..10469eb 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -125,6 +125,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From 73e191f46fb217c5d20f8e409b5f68e2630bb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 34/52] fix: SaveLogger can store the final model under a name
 with %d

---
 pystruct/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..a2a8b99 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,8 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                # the iteration may be 'final'
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From e0abb922c57eff40977042d57303ebd86267cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 35/52] fix: SaveLogger gives the inference cache back when
 saving fails

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index a2a8b99..e965317 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -60,8 +60,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From 6604a43647f9e797605b978d369c59cbba988cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 36/52] fix: typed models reject samples with too many feature
 arrays (zip dropped them silently)

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 +-
 pystruct/models/typed_crf.py                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..6ca8c59 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -174,7 +174,7 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             raise ValueError("Expected %d edge arrays "
                              "or None" % (self.n_types**2))
         l_edge_features = self._get_edge_features(x)
-        if len(l_edge_features) != self.n_types**2:
+        if len(x[2]) != self.n_types**2:
             raise ValueError("Expected %d edge feature arrays "
                              "or None" % (self.n_types**2))
 
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 6864be5..1e34a22 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -190,7 +190,7 @@ class TypedCRF(CRF):
     def _check_size_x(self, x):
         # node_features are [  i_in_typ -> features ]
         l_node_features = self._get_node_features(x)
-        if len(l_node_features) != self.n_types:
+        if len(x[0]) != self.n_types:
             raise ValueError("Expected one node feature array per node type.")
 
         for typ, typ_features in enumerate(l_node_features):
-- 
2.43.0


From 20b13566aafb48e9089716daf09703a3c09769d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 37/52] fix: grid models reject images with another number of
 features (reshaping regrouped them)

---
 pystruct/models/grid_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/grid_crf.py b/pystruct/models/grid_crf.py
index de0f3e1..0ebefa4 100644
--- a/pystruct/models/grid_crf.py
+++ b/pystruct/models/grid_crf.py
@@ -46,7 +46,7 @@ class GridCRF(GraphCRF):
         return make_grid_edges(x, neighborhood=self.neighborhood)
 
     def _get_features(self, x):
-        return x.reshape(-1, self.n_features)
+        return x.reshape(-1, x.shape[-1])
 
     def _reshape_y(self, y, shape_x, return_energy):
         if return_energy:
-- 
2.43.0


From 266cc47fa21b7ce99870fe7612137e999a38074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 38/52] fix: MultiLabelClf can be constructed with n_features
 but without n_labels

---
 pystruct/models/multilabel_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 40e4122..442bbd0 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -42,7 +42,7 @@ class MultiLabelClf(CRF):
 
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
-        if self.n_features is not None and self.n_states is not None:
+        if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
-- 
2.43.0


From 6838cc3cb756e78f62dd93285f8d8d276806c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 39/52] fix: FrankWolfeSSVM records the training loss asked for
 by show_loss_every

---
 pystruct/learners/frankwolfe_ssvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 56f55ac..9bf7416 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -190,6 +190,7 @@ class FrankWolfeSSVM(BaseSSVM):
             self.w = (1.0 - gamma) * self.w + gamma * ws
             l = (1.0 - gamma) * l + gamma * ls
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -264,6 +265,7 @@ class FrankWolfeSSVM(BaseSSVM):
                     print("dual: %f, dual_gap: %f, primal: %f"
                           % (dual_val, dual_gap, primal_val))
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
-- 
2.43.0


From d8b05bab4287373cd35e50833c7ac8a890130ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 40/52] fix: MultiClassClf handles lists of labels, as parallel
 inference returns them

---
 pystruct/models/unstructured_svm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e740b33..4f30b42 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -233,6 +233,8 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        # labels found by parallel inference come as a list
+        Y = np.asarray(Y)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
@@ -329,7 +331,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores, axis=1)
 
     def batch_loss(self, Y, Y_hat):
-        return self.class_weight[Y] * (Y != Y_hat)
+        Y = np.asarray(Y)
+        return self.class_weight[Y] * (Y != np.asarray(Y_hat))
 
     def loss(self, y, y_hat):
         return self.class_weight[y] * (y != y_hat)
-- 
2.43.0


From 97758bd00fdb7d794bcb5d7547cf2af01cd6da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 41/52] fix: OneSlackSSVM keeps the right working set and dual
 objective when a fit adds no constraint

---
 pystruct/learners/one_slack_ssvm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 3855981..5f0d9b5 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -458,8 +458,11 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
-        # dual objective of the ground truth constraint
+        self.constraints_ = constraints
+        # dual objective of the ground truth constraint, or of the last fit
         objective = 0
+        if warm_start and warm_start != "soft":
+            objective = self.objective_curve_[-1]
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
@@ -533,7 +536,6 @@ class OneSlackSSVM(BaseSSVM):
                 # we only do this here because we didn't add the gt to the
                 # constraints, which makes the dual behave a bit oddly
                 self.objective_curve_.append(objective)
-                self.constraints_ = constraints
                 if self.logger is not None:
                     self.logger(self, iteration)
 
-- 
2.43.0


From 2d2d5cdfbd765ba14bb60ab7f9a9be7a41890b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 42/52] fix: generate_bars failed when no bar of the first kind
 was drawn

---
 pystruct/datasets/synthetic_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..134d15d 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,7 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    n_classes = 3 if separate_labels else 2
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 4f35950e36040f5b6449cc488292304e8b613137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 43/52] fix: inference_ad3plus takes one pairwise table for all
 edges, as documented

---
 pystruct/inference/inference_methods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 12e035f..34ea403 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -499,10 +499,10 @@ def inference_ad3plus(l_unary_potentials, l_pairwise_potentials, l_edges
 
     """
     import ad3
-#     n_states, pairwise_potentials = \
-#         _validate_params(unary_potentials, pairwise_potentials, edges)
-#     unaries = unary_potentials.reshape(-1, n_states)
     bMultiType = isinstance(l_unary_potentials, list)
+    if not bMultiType:
+        n_states, l_pairwise_potentials = _validate_params(
+            l_unary_potentials, l_pairwise_potentials, l_edges)
 
     res = ad3.general_constrained_graph(l_unary_potentials, l_edges
                                         , l_pairwise_potentials, constraints
-- 
2.43.0


From ace29e870b574bc3ef1ab81c6e40a1fcfa7e90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 44/52] fix: NSlackSSVM compares relaxed results of models with
 several node types

---
 pystruct/learners/n_slack_ssvm.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index b5aae01..b710c16 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -19,6 +19,17 @@ from .ssvm import BaseSSVM
 from ..utils import unwrap_pairwise, find_constraint
 
 
+def same_labeling(y_1, y_2):
+    """Compare labelings, relaxed ones by their unary marginals."""
+    if isinstance(y_1, tuple) != isinstance(y_2, tuple):
+        return False
+    u_1, u_2 = unwrap_pairwise(y_1), unwrap_pairwise(y_2)
+    if isinstance(y_1, tuple) and isinstance(u_1, list):
+        # several types of nodes
+        return all(np.all(m_1 == m_2) for m_1, m_2 in zip(u_1, u_2))
+    return np.all(u_1 == u_2)
+
+
 class NSlackSSVM(BaseSSVM):
     """Structured SVM solver for the n-slack QP with l1 slack penalty.
 
@@ -206,11 +217,9 @@ class NSlackSSVM(BaseSSVM):
     def _check_bad_constraint(self, y_hat, slack, old_constraints):
         if slack < 1e-5:
             return True
-        y_hat_plain = unwrap_pairwise(y_hat)
 
         already_active = np.any([True for y__, _, _ in old_constraints
-                                 if np.all(y_hat_plain ==
-                                           unwrap_pairwise(y__))])
+                                 if same_labeling(y_hat, y__)])
         if already_active:
             return True
 
-- 
2.43.0


From 48c07964a1fdef96622fb3804f7da3620c11eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 45/52] fix: MultiLabelClf joint features of integer features
 and unsigned labels

---
 pystruct/models/multilabel_svm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 442bbd0..390bd7a 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -92,12 +92,13 @@ class MultiLabelClf(CRF):
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
-            # discrete y
+            # discrete y, signed so that labels can be turned into signs
+            y = np.asarray(y, dtype=np.int64)
             y_signs = 2 * y - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From fb555f0fdf611d859cb69e2d30c177785a58d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 46/52] fix: MultiClassClf.batch_joint_feature takes features
 that are not doubles

---
 pystruct/models/unstructured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 4f30b42..57276d1 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -249,6 +249,8 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
+            # which expects features in double precision
+            X = np.asarray(X, dtype=np.float64)
             crammer_singer_joint_feature(X, Y, result)
         return result.ravel()
 
-- 
2.43.0


From b127c2472eb87b4140de69a03701bb0fff9c7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 47/52] fix: number pairs of states right for labels of narrow
 types

---
 pystruct/models/edge_feature_graph_crf.py           | 2 ++
 pystruct/models/node_type_edge_feature_graph_crf.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..83d6e1b 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -187,6 +187,8 @@ class EdgeFeatureGraphCRF(GraphCRF):
 
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            # numbers of pairs of states need not fit the type of the labels
+            y = y.astype(np.int64)
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
                               y[edges[:, 0]])
             pw[np.arange(len(edges)), class_pair_ind] = 1
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 6ca8c59..7921f79 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -404,7 +404,9 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 * y1)
+                    # (the type of the labels may be too narrow for it)
+                    class_pair_ind = (y2 + _n_states_typ2 *
+                                      y1.astype(np.int64))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
 
-- 
2.43.0


From 289bf48b6241a4a843edc2c9e781c91d771fcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 48/52] fix: find nodes of a type right for edges of narrow
 types

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 7921f79..f8a260a 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -395,9 +395,9 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                 _n_states_typ2 = self.l_n_states[typ2]
                 _pw = np.zeros((_n_edges, _n_states_typ1 * _n_states_typ2))
                 if _n_edges:
-                    y1 = y[node_offset_by_typ[typ1] + edges[:, 0]]\
+                    y1 = y[node_offset_by_typ[typ1]:][edges[:, 0]]\
                         - self._l_type_startindex[typ1]
-                    y2 = y[node_offset_by_typ[typ2] + edges[:, 1]]\
+                    y2 = y[node_offset_by_typ[typ2]:][edges[:, 1]]\
                         - self._l_type_startindex[typ2]
                     assert (0 <= y1).all() and (y1 <=
                                                 self.l_n_states[typ1]).all()
-- 
2.43.0


From 7e86907bfa0abc9c00ad085013b0341299f4b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 49/52] fix: EdgeFeatureLatentNodeCRF rounded joint features of
 integer edge features

---
 pystruct/models/latent_node_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index eb727fe..9441356 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -614,7 +614,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             pw = [np.outer(unary_marginals[edge[0]].T,
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
-            pw = np.array(pw).reshape(-1, self.n_states ** 2)
+            pw = np.array(pw, dtype=np.float64).reshape(
+                -1, self.n_states ** 2)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 736ab3ca12983d8803a7e0df6ff994ea6ffa2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 50/52] fix: flattenY codes labels of narrow types

---
 pystruct/models/typed_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1e34a22..1464dad 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -127,7 +127,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         for n_start_state, Y_typ in zip(self._l_type_startindex, lY_by_typ):
-            lY.append(np.asarray(Y_typ) + n_start_state)
+            lY.append(np.asarray(Y_typ, dtype=np.int64) + n_start_state)
         return np.hstack(lY)
 
     def unflattenY(self, X, flatY):
-- 
2.43.0


From df05a94fdf835321af27527c01e8068f4cca2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 51/52] fix: take read-only samples, as workers get them

---
 pystruct/models/crf.py              | 4 +++-
 pystruct/models/unstructured_svm.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index 3486593..024c750 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -56,7 +56,9 @@ class CRF(StructuredModel):
         """
         we define it as a method so that subclasses can specialize it.
         """
-        loss_augment_unaries(unary_potentials, np.asarray(y),
+        # the compiled function does not take read-only arrays, as workers get
+        loss_augment_unaries(unary_potentials,
+                             np.require(y, requirements='W'),
                              self.class_weight)
 
     def loss_augmented_inference(self, x, y, w, relaxed=False,
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 57276d1..06aba55 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -251,7 +251,10 @@ class MultiClassClf(StructuredModel):
             assert(X.shape[1] == self.n_features)
             # which expects features in double precision
             X = np.asarray(X, dtype=np.float64)
-            crammer_singer_joint_feature(X, Y, result)
+            # and does not take read-only arrays
+            crammer_singer_joint_feature(np.require(X, requirements='W'),
+                                         np.require(Y, requirements='W'),
+                                         result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From a6cd1787518950d4180f71366126fff2882d19ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 52/52] fix: init_latent of grid models takes lists of grids

---
 pystruct/models/latent_grid_crf.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41dab4b..c03ac23 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -26,11 +26,13 @@ class LatentGridCRF(GridCRF, LatentGraphCRF):
         # treat all edges the same
         edges = [[make_grid_edges(x, neighborhood=self.neighborhood,
                                   return_lists=False)] for x in X]
-        H = kmeans_init(X.reshape(X.shape[0], -1, self.n_features),
-                        Y.reshape(Y.shape[0], -1), edges,
+        H = kmeans_init([x.reshape(-1, self.n_features) for x in X],
+                        [y.ravel() for y in Y], edges,
                         n_labels=self.n_labels,
                         n_states_per_label=self.n_states_per_label)
-        return np.array(H).reshape(Y.shape)
+        H = [h.reshape(y.shape) for h, y in zip(H, Y)]
+        # a list of grids need not be of one size
+        return np.array(H) if hasattr(Y, 'shape') else H
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
                                  return_energy=False):
@@ -79,12 +81,14 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
     def init_latent(self, X, Y):
         edges = [make_grid_edges(x, neighborhood=self.neighborhood,
                                  return_lists=True) for x in X]
-        H = kmeans_init(X.reshape(X.shape[0], -1, self.n_features),
-                        Y.reshape(Y.shape[0], -1), edges,
+        H = kmeans_init([x.reshape(-1, self.n_features) for x in X],
+                        [y.ravel() for y in Y], edges,
                         n_labels=self.n_labels,
                         n_states_per_label=self.n_states_per_label,
                         symmetric=False)
-        return np.array(H).reshape(Y.shape)
+        H = [h.reshape(y.shape) for h, y in zip(H, Y)]
+        # a list of grids need not be of one size
+        return np.array(H) if hasattr(Y, 'shape') else H
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
                                  return_energy=False):
-- 
2.43.0

