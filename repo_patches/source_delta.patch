From 261f15b6b956b3ea2a9ec7e0b9aec3dd1b40ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 01/44] fix: take the first row into account when testing
 whether a column is constant

is_not_constant([1, 2]) and is_not_constant([1, 2, 2]) were False, so columns whose
only deviating value is in the first row were never splittable. (C03, C04)
---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9daa97e 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From 16c3392d493442bd2f200cbe165dacaeaa084a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 02/44] fix: in-sample tree prediction of the wrong length or
 stale

The buffer had the length of the first node of the node list, which after a grow is a
child (IndexError), was kept when leaf values changed after a prediction (stale result),
and earlier returned predictions were overwritten in place. (C05)
---
 bartpy/tree.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..6f555a6 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -25,6 +25,7 @@ class Tree:
         self._nodes = nodes
         self.cache_up_to_date = False
         self._prediction = None
+        self._cached_leaf_values = None
 
     @property
     def nodes(self) -> List[TreeNode]:
@@ -81,12 +82,14 @@ class Tree:
         if X is not None:
             return self._out_of_sample_predict(X)
 
-        if self.cache_up_to_date:
+        leaf_nodes = self.leaf_nodes
+        leaf_values = [leaf.predict() for leaf in leaf_nodes]
+        if self.cache_up_to_date and leaf_values == self._cached_leaf_values:
             return self._prediction
-        for leaf in self.leaf_nodes:
-            if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
-            self._prediction[leaf.split.condition()] = leaf.predict()
+        self._prediction = np.zeros(len(self.nodes[0].data.mask))
+        for leaf, value in zip(leaf_nodes, leaf_values):
+            self._prediction[leaf.split.condition()] = value
+        self._cached_leaf_values = leaf_values
         self.cache_up_to_date = True
         return self._prediction
 
-- 
2.43.0


From 725f78b7d7fa8c2215bd48f3cd41a501d6e079df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 03/44] fix: freshly initialised trees had None as their target

update_y returns None, and its result was passed to a second update_y. (C04, C06)
---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..cac2d2b 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From 3f6194bc735bc8709c482fcf13b451f85469d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 04/44] fix: predicting for an empty covariate matrix raised a
 TypeError

np.array([]) is a float array, which cannot be combined with & . (C05)
---
 bartpy/splitcondition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/splitcondition.py b/bartpy/splitcondition.py
index 6936c6c..470904f 100644
--- a/bartpy/splitcondition.py
+++ b/bartpy/splitcondition.py
@@ -67,7 +67,7 @@ class CombinedCondition(object):
             self.splitting_variable = None
 
     def condition(self, X: np.ndarray) -> np.ndarray:
-        c = np.array([True] * len(X))
+        c = np.ones(len(X), dtype=bool)
         for variable in self.variables.keys():
             c = c & (X[:, variable] > self.variables[variable].min_value) & (X[:, variable] <= self.variables[variable].max_value)
         return c
-- 
2.43.0


From cb1cba146335f1f1e4ef01785f9884a8c7e82b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 05/44] fix: compare the log acceptance ratio with the log of
 the uniform draw

A uniform draw was compared with the logged ratio, so moves with a ratio below one were
never accepted and trees froze after their first split. (C07)
---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From 38ea13d7b6cc9fa687c4d915f3d5fc5da4d5b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 06/44] fix: use the leaf prior variance throughout the
 marginal likelihood ratio

Some of the terms used the standard deviation sigma_mu where the integrated likelihood of
Chipman et al. has the variance. (C07)
---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From fd560b0b19c119df34237d6132c030fb2113edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 07/44] fix: Metropolis-Hastings transition and tree prior
 ratios break detailed balance

The reverse move was weighted with node counts of the wrong tree (prunable nodes before the
grow plus one, splittable leaves before the prune minus one, which is nan or -inf for small
trees), the choice of the leaf to grow was counted as part of the tree prior, and the grow
(prune) probability ignored that it is the only possible move for a root-only (fully grown)
tree. A grow and its reverse prune therefore did not have opposite log ratios. (C07)
---
 .../unconstrainedtree/likihoodratio.py        | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..414ae2f 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -78,26 +78,27 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        prob_prune_selected = - np.log(n_prunable_decision_nodes_after(tree, mutation))
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        prob_grow = self.prob_method[0] if n_prunable_decision_nodes(tree) > 0 else 1.
+        prob_prune = self.prob_method[1] if n_splittable_leaf_nodes_after(tree, mutation) > 0 else 1.
+        prune_grow_ratio = np.log(prob_prune / prob_grow)
 
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        prob_grow_node_selected = - np.log(n_splittable_leaf_nodes_after(tree, mutation))
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
         prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
 
         prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        prob_grow = self.prob_method[0] if n_prunable_decision_nodes_after(tree, mutation) > 0 else 1.
+        prob_prune = self.prob_method[1] if n_splittable_leaf_nodes(tree) > 0 else 1.
+        grow_prune_ratio = np.log(prob_grow / prob_prune)
 
         return grow_prune_ratio + prob_selection_ratio
 
@@ -108,7 +109,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
@@ -118,7 +119,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         numerator = log_probability_node_not_split(model, proposal.updated_node)
 
         prob_left_not_split = log_probability_node_not_split(model, proposal.existing_node.left_child)
-        prob_right_not_split = log_probability_node_not_split(model, proposal.existing_node.left_child)
+        prob_right_not_split = log_probability_node_not_split(model, proposal.existing_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.existing_node)
         prob_chosen_split = log_probability_split_within_node(GrowMutation(proposal.updated_node, proposal.existing_node))
         denominator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
@@ -142,6 +143,32 @@ def n_splittable_leaf_nodes(tree: Tree) -> int:
     return len(tree.splittable_leaf_nodes)
 
 
+def n_prunable_decision_nodes_after(tree: Tree, mutation: TreeMutation) -> int:
+    """
+    The number of prunable decision nodes the tree would have after the mutation
+    """
+    prunable_nodes = [x for x in tree.prunable_decision_nodes if x is not mutation.existing_node]
+    parents = [x for x in tree.decision_nodes
+               if x.left_child is mutation.existing_node or x.right_child is mutation.existing_node]
+    if mutation.kind == "grow":
+        return len([x for x in prunable_nodes if x not in parents]) + 1
+    siblings = [x.right_child if x.left_child is mutation.existing_node else x.left_child for x in parents]
+    return len(prunable_nodes) + len([x for x in siblings if type(x) == LeafNode])
+
+
+def n_splittable_leaf_nodes_after(tree: Tree, mutation: TreeMutation) -> int:
+    """
+    The number of splittable leaf nodes the tree would have after the mutation
+    """
+    if mutation.kind == "grow":
+        removed, added = [mutation.existing_node], [mutation.updated_node.left_child, mutation.updated_node.right_child]
+    else:
+        removed, added = [mutation.existing_node.left_child, mutation.existing_node.right_child], [mutation.updated_node]
+    n_removed = len([x for x in removed if x.is_splittable()])
+    n_added = len([x for x in added if x.is_splittable()])
+    return n_splittable_leaf_nodes(tree) - n_removed + n_added
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
-- 
2.43.0


From 0acd2dcebe3491aea43a3759fdf6c7cbbfec5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 08/44] fix: leaf values were drawn with their posterior
 variance divided by the number of trees

The number of trees already enters through sigma_m; dividing again makes the draws too
narrow by a factor sqrt(n_trees). (C08)
---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From 8651557161e30d27195573976e214e3836c1d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 09/44] fix: thin stored the wrong share of samples unless 1 /
 thin is an integer

ss % (1. / thin) == 0 holds for ss = 0 only when thin is 0.3 or 0.7, and floating point
error breaks even thin = 1 / 49. Keep ceil(thin * n) of the first n samples. (C09)
---
 bartpy/samplers/modelsampler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..0f40b46 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -46,11 +46,9 @@ class ModelSampler(Sampler):
         acceptance_trace = []
         print("Starting sampling")
 
-        thin_inverse = 1. / thin
-
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if np.ceil(round((ss + 1) * thin, 9)) > np.ceil(round(ss * thin, 9)):
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From 00f2cf795fd89d48f58bcaa13a989880caf11135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 10/44] fix: stored trees linked to the nodes of the live tree

Decision nodes of a stored tree kept the live children, which change as sampling goes on
and hold the training data. (C10)
---
 bartpy/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 6f555a6..46f6e35 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -174,4 +174,8 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copied_nodes = {x: deep_copy_node(x) for x in tree.nodes}
+    for node, copied_node in copied_nodes.items():
+        copied_node._left_child = copied_nodes.get(node.left_child)
+        copied_node._right_child = copied_nodes.get(node.right_child)
+    return Tree(list(copied_nodes.values()))
-- 
2.43.0


From 1221ca77e82af7dc669516eca69f1539ee415d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 11/44] fix: stored model samples lost their prior parameters

deep_copy_model left alpha, beta and k at their defaults. (C10)
---
 bartpy/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index cac2d2b..d373da7 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -87,5 +87,6 @@ class Model:
 
 
 def deep_copy_model(model: Model) -> Model:
-    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees])
+    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees],
+                         alpha=model.alpha, beta=model.beta, k=model.k)
     return copied_model
-- 
2.43.0


From a918223a97f7f973c0deb2a6bd352f8e159dc682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 12/44] fix: prediction_samples recursed into itself without
 end (C12)

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..e037734 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -338,7 +338,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From 60a02953e01b050c6bfae56aef64632516af10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 13/44] fix: from_extract stored the samples in the wrong model

The samples went into the specification model instead of the copy, so every model returned
by run_models held the samples of the data set before it; residuals used the target of the
specification model. (C13)
---
 bartpy/sklearnmodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index e037734..9a67207 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -360,7 +360,8 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
-        new_model.data = self._convert_covariates_to_data(X, y)
+        new_model.extract, new_model.combined_chains = extract, combined_chain
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
+        new_model._construct_model(X, y)
         return new_model
-- 
2.43.0


From fd798bddcb1ed7b23038d5411aa06145eebcb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 14/44] fix: chains run in threads shared one model and one
 sigma

Every chain was built into attributes of the shared estimator and read back from there, so
with joblib's threading backend two chains could sample the same model or sigma. (C13)
---
 bartpy/sklearnmodel.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 9a67207..6265cbc 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -24,8 +24,8 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
-    model.model = model._construct_model(X, y)
-    return model.sampler.samples(model.model,
+    chain_model = model._construct_model(X, y)
+    return model.sampler.samples(chain_model,
                                  model.n_samples,
                                  model.n_burn,
                                  model.thin,
@@ -163,15 +163,16 @@ class SklearnModel(BaseEstimator, RegressorMixin):
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
             raise ValueError("Empty covariate matrix passed")
-        self.data = self._convert_covariates_to_data(X, y)
-        self.sigma = Sigma(self.sigma_a, self.sigma_b, self.data.y.normalizing_scale)
-        self.model = Model(self.data,
-                           self.sigma,
-                           n_trees=self.n_trees,
-                           alpha=self.alpha,
-                           beta=self.beta,
-                           initializer=self.initializer)
-        return self.model
+        data = self._convert_covariates_to_data(X, y)
+        sigma = Sigma(self.sigma_a, self.sigma_b, data.y.normalizing_scale)
+        model = Model(data,
+                      sigma,
+                      n_trees=self.n_trees,
+                      alpha=self.alpha,
+                      beta=self.beta,
+                      initializer=self.initializer)
+        self.data, self.sigma, self.model = data, sigma, model
+        return model
 
     def f_delayed_chains(self, X: np.ndarray, y: np.ndarray):
         """
-- 
2.43.0


From 9e1cd74ce35e4079077ddd1f875d7e9e83cbab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 15/44] fix: proposing a mutation recursed without end when
 none is possible

A single-leaf tree on constant covariates (or a single row) can neither grow nor prune, and
fit died with a RecursionError. Leave such a tree as it is. (C03, C17)
---
 bartpy/samplers/unconstrainedtree/proposer.py     | 4 +++-
 bartpy/samplers/unconstrainedtree/treemutation.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..dec88fa 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -40,7 +40,9 @@ class UniformMutationProposer(TreeMutationProposer):
                                               list(self.prob_method_lookup.values()),
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
+    def propose(self, tree: Tree) -> Optional[TreeMutation]:
+        if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+            return None
         method = self.method_sampler.sample()
         try:
             return method(tree)
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..1dfc6de 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
+        if proposal is None:
+            return None
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From 9c43e27f7128c1f641e485f5c867e9bcb609b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 16/44] fix: a constant target was normalised to nan

Dividing by the zero range made all predictions nan. (C11, C17)
---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9daa97e..09dd7b4 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_min == y_max:
+            return np.zeros(len(y))
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d69fedcbed769ccf9852ef69e7ee1a919bdad790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 17/44] fix: residual extensions could not be imported or
 predict in sample

sklearn.linear_model.base is a private module that no longer exists, and predict() passed the
covariate wrapper object instead of the matrix to the base model. (C15)
---
 bartpy/extensions/baseestimator.py | 4 ++--
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..43e53a6 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
@@ -25,7 +25,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From ed0269bc0e918afe63c5f243ead630178e69effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 18/44] fix: cloning a residual extension dropped all BART
 parameters

Parameters taken through **kwargs were not part of get_params, so cross validation and grid
search silently used the defaults. (C15)
---
 bartpy/extensions/baseestimator.py | 4 ++++
 bartpy/extensions/ols.py           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 43e53a6..71d1d68 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -18,6 +18,10 @@ class ResidualBART(SklearnModel):
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator.fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..8b3a7b9 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -14,6 +14,10 @@ class OLS(SklearnModel):
         self.stat_model_fit = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
-- 
2.43.0


From bba8c06b25d16dc550dba53a8e22b77f8676889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 19/44] fix: null thresholds were the wrong percentile, global
 ones failed

percentile is documented as a fraction (closer to 1.0 is more stringent) but was passed to
np.percentile, which expects 0 to 100; DataFrame.iter_rows does not exist. (C14)
---
 bartpy/diagnostics/features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..5c33e50 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -126,7 +126,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.quantile(null_distributions[feature], percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -155,9 +155,9 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for _, row in df.iterrows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From 531f515edb1e9f524dbdf5fce889a36494c0d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 20/44] fix: split proportions counted root nodes as splits

Every tree's root entered the denominator, so the proportions did not sum to one. (C14)
---
 bartpy/diagnostics/features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 5c33e50..26ad746 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,10 +20,11 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
-        columns = sorted(list([x for x in counter.keys() if x is not None]))
+        columns = sorted(counter.keys())
 
     proportions = {}
     for column in columns:
-- 
2.43.0


From 49594c4e9264ced811853034623df6a8d7c1d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 21/44] fix: feature selectors could not be imported, masks
 missed unused features

sklearn.feature_selection.base is a private module that no longer exists; the support mask
had no entry for features that are never split on; an unknown method raised an
AttributeError instead of the intended NotImplementedError. (C14)
---
 bartpy/features/featureselection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..f023a3b 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -46,7 +46,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         elif method == "global":
             self.method = global_thresholds
         else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
         self.model = deepcopy(model)
         if n_trees is not None:
             self.model.n_trees = n_trees
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 56b940f1fcbb978c23c7c3970926136ee0b18599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 22/44] fix: null feature importance was scored on the training
 rows

The held-out targets were compared with predictions for the training rows. (C20)
---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From f68ddfed514533705650cf43e4f723998fcf67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 23/44] fix: the sklearn tree initializer failed on every model

It read attributes the data classes do not have and used a loss name sklearn has removed;
a sklearn tree that is a single leaf kept its value to itself. (C16)
---
 bartpy/initializers/sklearntreeinitializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..18f41b9 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
@@ -69,6 +69,7 @@ def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
         left_child_index, right_child_index = sklearn_tree.children_left[index], sklearn_tree.children_right[index]
 
         if left_child_index == -1:  # Trees are binary splits, so only need to check left tree
+            nodes[index].set_value(sklearn_tree.value[index][0][0])
             return
 
         searched_node: LeafNode = nodes[index]
-- 
2.43.0


From 0b91144b0a89b45e6581445136da12cbdf40b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 24/44] fix: copied random sources replayed the cached draws of
 the original

Once a cache is filled, every chain sent to a worker process and every model copied by
run_models received the same draws, so they were not independent. (C13, C18)
---
 bartpy/samplers/scalar.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..d0e559e 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -3,7 +3,16 @@ from typing import Any, List
 import numpy as np
 
 
-class NormalScalarSampler():
+class CachedSampler():
+
+    def __getstate__(self):
+        # Copies must not replay the draws that are still cached in the original
+        state = self.__dict__.copy()
+        state["_cache"] = []
+        return state
+
+
+class NormalScalarSampler(CachedSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -19,7 +28,7 @@ class NormalScalarSampler():
         self._cache = list(np.random.normal(size=self._cache_size))
 
 
-class UniformScalarSampler():
+class UniformScalarSampler(CachedSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -35,7 +44,7 @@ class UniformScalarSampler():
         self._cache = list(np.random.uniform(size=self._cache_size))
 
 
-class DiscreteSampler():
+class DiscreteSampler(CachedSampler):
 
     def __init__(self,
                  values: List[Any],
-- 
2.43.0


From cd308e00cfcdf60d5b91181776d4801e087629d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 25/44] fix: set_params(tree_sampler=...) was ignored by fit

The schedule kept the sampler given to the constructor. (C12)
---
 bartpy/sklearnmodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 6265cbc..d866da4 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -121,6 +121,12 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        if "tree_sampler" in params:
+            self.schedule.tree_sampler = self.tree_sampler
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From d0506e970500c08c3442dfe0612d4b7af88821f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 26/44] fix: oblivious trees split unsplittable leaves into two
 copies of themselves

Both children held all rows, so rows belonged to several leaves, and an unsplittable root
failed for want of a split condition. (C01, C03)
---
 bartpy/samplers/oblivioustrees/proposer.py     | 2 +-
 bartpy/samplers/oblivioustrees/treemutation.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..227e3ae 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,7 +13,7 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    return [GrowMutation(x, sample_split_node(x)) for x in tree.splittable_leaf_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..3b0f793 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
+        if len(proposals) == 0:
+            return None
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
-- 
2.43.0


From 5c41d2202c75cc782c69e8143fde6cbf2fabce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 27/44] fix: residual plots failed on attribute and argument
 errors (C19)

---
 bartpy/diagnostics/residuals.py | 2 +-
 bartpy/plotting.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From 3257a57089d6e0737010d86c555082ba58f92667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 28/44] fix: fitting failed on data frames that mix boolean and
 numeric columns (C17)

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index 09dd7b4..7baf000 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -28,7 +28,7 @@ def is_not_constant(series: np.ndarray) -> bool:
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-                first_value = series.data[i]
+                first_value = series[i]
             else:
                 return True
     return False
-- 
2.43.0


From c44263eac99743ff1abc869b9f71304f2694aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 29/44] fix: small integer targets overflowed and boolean ones
 failed in normalisation (C11, C17)

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index d866da4..a99b6a5 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -164,7 +164,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         if type(X) == pd.DataFrame:
             X: pd.DataFrame = X
             X = X.values
-        return Data(deepcopy(X), deepcopy(y), normalize=True)
+        return Data(deepcopy(X), deepcopy(y).astype(float), normalize=True)
 
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
-- 
2.43.0


From c7e653bce0e93c2880f43373ab42c27366f6c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:03 +0000
Subject: [PATCH 30/44] fix: residual extensions subtracted the base model
 twice in residuals() (C15)

---
 bartpy/extensions/baseestimator.py | 7 +++++++
 bartpy/extensions/ols.py           | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 71d1d68..95b8e84 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -33,3 +33,10 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            # The stored target is already net of the base model
+            X = self.data.X.values if X is None else X
+            return self.model.data.y.unnormalized_y - SklearnModel.predict(self, X)
+        return y - self.predict(X)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8b3a7b9..091dffe 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -29,3 +29,10 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            # The stored target is already net of the base model
+            X = self.data.X.values if X is None else X
+            return self.model.data.y.unnormalized_y - SklearnModel.predict(self, X)
+        return y - self.predict(X)
-- 
2.43.0


From 403fedb5fac67595daba50cd06f4aa594212b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 31/44] fix: in-sample prediction returned nan when the last
 fit stored no predictions (C12)

---
 bartpy/sklearnmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index a99b6a5..c99302a 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -229,9 +229,9 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             predictions for the X covariates
         """
-        if X is None and self.store_in_sample_predictions:
+        if X is None and self.store_in_sample_predictions and len(self._prediction_samples) > 0:
             return self.data.y.unnormalize_y(np.mean(self._prediction_samples, axis=0))
-        elif X is None and not self.store_in_sample_predictions:
+        elif X is None:
             raise ValueError(
                 "In sample predictions only possible if model.store_in_sample_predictions is `True`.  Either set the parameter to True or pass a non-None X parameter")
         else:
-- 
2.43.0


From a3120d7b185b54cd3dcb54a1c4554180fc690c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:37 +0000
Subject: [PATCH 32/44] fix: split proportions were drawn on the current axes,
 not on the ones passed in (C19)

---
 bartpy/diagnostics/features.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 26ad746..1aaca67 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,12 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos)
+    ax.set_yticklabels(props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From d6f3b94b23f73f69b462261bb1789c156d709f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 33/44] fix: chains in forked worker processes repeated each
 other's random draws (C13)

---
 bartpy/sklearnmodel.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c99302a..0bb4ca7 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -1,3 +1,4 @@
+import os
 from copy import deepcopy
 from typing import List, Callable, Mapping, Union, Optional
 
@@ -37,6 +38,16 @@ def delayed_run_chain():
     return run_chain
 
 
+def run_in_own_stream(chain: Callable[..., Chain], parent_pid: int, seed: int, model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
+    """
+    Run a chain, seeding it separately if it runs in another process
+    A forked process would otherwise repeat the random draws of its siblings
+    """
+    if os.getpid() != parent_pid:
+        np.random.seed(seed)
+    return chain(model, X, y)
+
+
 class SklearnModel(BaseEstimator, RegressorMixin):
     """
     The main access point to building BART models in BartPy
@@ -197,7 +208,9 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         -------
         List[Callable[[], ChainExtract]]
         """
-        return [delayed(x)(self, X, y) for x in self.f_chains()]
+        chains = self.f_chains()
+        seeds = np.random.randint(0, 2 ** 32, size=len(chains), dtype=np.uint32)
+        return [delayed(run_in_own_stream)(x, os.getpid(), int(seed), self, X, y) for x, seed in zip(chains, seeds)]
 
     def f_chains(self) -> List[Callable[[], Chain]]:
         """
-- 
2.43.0


From 81d3446b99f009da9e89e5ccc1011a82486e3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 34/44] fix: threads sharing a random source could find its
 cache empty after checking it (C13)

---
 bartpy/samplers/scalar.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index d0e559e..aef4036 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -20,9 +20,11 @@ class NormalScalarSampler(CachedSampler):
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # nothing cached, or another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.normal(size=self._cache_size))
@@ -36,9 +38,11 @@ class UniformScalarSampler(CachedSampler):
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # nothing cached, or another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.uniform(size=self._cache_size))
@@ -58,9 +62,11 @@ class DiscreteSampler(CachedSampler):
         self._cache = []
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # nothing cached, or another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
-- 
2.43.0


From bc2931c23445b3353ef6037743674635dd268edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 35/44] fix: a sweep that was given up, or leaf values set
 between sweeps, left a stale running total (C06)

---
 bartpy/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index d373da7..00dc6db 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -69,8 +69,7 @@ class Model:
         return self._trees
 
     def refreshed_trees(self) -> Generator[Tree, None, None]:
-        if self._prediction is None:
-            self._prediction = self.predict()
+        self._prediction = self.predict()
         for tree in self._trees:
             self._prediction -= tree.predict()
             tree.update_y(self.data.y.values - self._prediction)
-- 
2.43.0


From cf4a020db8c6eb855c3b7defc13601ce7b1612f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 36/44] fix: a prune built before one of the node's children
 was grown corrupted the tree (C02)

---
 bartpy/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 46f6e35..1e18038 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -139,6 +139,9 @@ def mutate(tree: Tree, mutation: TreeMutation) -> None:
     mutation: TreeMutation
         The mutation to apply to the tree
     """
+    if mutation.kind == "prune" and not mutation.existing_node.is_prunable():
+        raise TypeError("Pruning only valid on prunable decision nodes")
+
     tree.cache_up_to_date = False
 
     if mutation.kind == "prune":
-- 
2.43.0


From 67141e8560d13d94a5f24957a7e5d7ec0b3acd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 37/44] fix: after a fit that failed in a chain, old samples
 were read in the new data's units (C12, C15)

---
 bartpy/sklearnmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 0bb4ca7..e857e1a 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -155,6 +155,8 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             self with trained parameter values
         """
         self.model = self._construct_model(X, y)
+        # Earlier samples must not be read in the units of this data, should a chain fail
+        self._model_samples, self._prediction_samples = None, None
         self.extract = Parallel(n_jobs=self.n_jobs)(self.f_delayed_chains(X, y))
         self.combined_chains = self._combine_chains(self.extract)
         self._model_samples, self._prediction_samples = self.combined_chains["model"], self.combined_chains["in_sample_predictions"]
-- 
2.43.0


From dc9f9352fc697beb87a4bf9a775da6d912947afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 38/44] fix: extreme move probabilities exhausted the recursion
 limit when a move had to be redrawn (C03, C17)

---
 bartpy/samplers/oblivioustrees/proposer.py    | 13 ++++++-------
 bartpy/samplers/unconstrainedtree/proposer.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 227e3ae..4451751 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -30,13 +30,12 @@ class UniformMutationProposer(TreeMutationProposer):
                                               cache_size=1000)
 
     def propose(self, tree: Tree) -> TreeMutation:
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+        while True:
+            method = self.method_sampler.sample()
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                continue
 
 
 def sample_split_condition(node: LeafNode) -> Optional[Tuple[SplitCondition, SplitCondition]]:
diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index dec88fa..35f5a95 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -43,13 +43,12 @@ class UniformMutationProposer(TreeMutationProposer):
     def propose(self, tree: Tree) -> Optional[TreeMutation]:
         if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
             return None
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+        while True:
+            method = self.method_sampler.sample()
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                continue
 
 
 def random_splittable_leaf_node(tree: Tree) -> LeafNode:
-- 
2.43.0


From c110da021dd53986ad1d22e97c4cee449bbd80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 39/44] fix: a split condition applied again carried over the
 row count and target sum of the first node (C04)

---
 bartpy/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/node.py b/bartpy/node.py
index 80bd841..905d275 100644
--- a/bartpy/node.py
+++ b/bartpy/node.py
@@ -92,6 +92,8 @@ def split_node(node: LeafNode, split_conditions: Tuple[SplitCondition, SplitCond
     split_conditions[1].carry_y_sum = node.data.y.summed_y() - left_split.data.y.summed_y()
 
     right_split = node.split + split_conditions[1]
+    # What was carried is true of this node only, the condition may be applied to others
+    split_conditions[1].carry_n_obsv, split_conditions[1].carry_y_sum = None, None
 
     return DecisionNode(node.split,
                         LeafNode(left_split, depth=node.depth + 1),
-- 
2.43.0


From 4b5c289a8a42dd7797005db0cb2e5f4ea37c5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 40/44] fix: hand out a copy of a tree's prediction, so that
 overwriting it does not change later predictions

---
 bartpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 1e18038..524c643 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,13 +85,13 @@ class Tree:
         leaf_nodes = self.leaf_nodes
         leaf_values = [leaf.predict() for leaf in leaf_nodes]
         if self.cache_up_to_date and leaf_values == self._cached_leaf_values:
-            return self._prediction
+            return self._prediction.copy()
         self._prediction = np.zeros(len(self.nodes[0].data.mask))
         for leaf, value in zip(leaf_nodes, leaf_values):
             self._prediction[leaf.split.condition()] = value
         self._cached_leaf_values = leaf_values
         self.cache_up_to_date = True
-        return self._prediction
+        return self._prediction.copy()
 
     def _out_of_sample_predict(self, X) -> np.ndarray:
         """
-- 
2.43.0


From 8be5ff21bde0babc90b9631bc9ed346ffcb78720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 41/44] fix: keep the selectors' constructor parameters
 unmodified, so that they can be cloned, printed and cross-validated

---
 bartpy/features/featureselection.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index f023a3b..1562b27 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -11,15 +11,19 @@ from bartpy.diagnostics.features import null_feature_split_proportions_distribut
 from bartpy.sklearnmodel import SklearnModel
 
 
+THRESHOLD_METHODS = {"local": local_thresholds, "global": global_thresholds}
+
+
 class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
 
     def __init__(self,
                  model: SklearnModel,
                  percentile: float=0.2):
-        self.model = deepcopy(model)
+        self.model = model
         self.percentile = percentile
 
     def fit(self, X, y):
+        self.model = deepcopy(self.model)
         self.model.fit(X, y)
         self.X, self.y = X, y
         self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
@@ -41,23 +45,22 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
                  method="local",
                  n_permutations=10,
                  n_trees=None):
-        if method == "local":
-            self.method = local_thresholds
-        elif method == "global":
-            self.method = global_thresholds
-        else:
+        if method not in THRESHOLD_METHODS:
             raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
-        self.model = deepcopy(model)
-        if n_trees is not None:
-            self.model.n_trees = n_trees
+        self.method = method
+        self.model = model
         self.percentile = percentile
         self.n_permutations = n_permutations
+        self.n_trees = n_trees
 
     def fit(self, X, y):
+        self.model = deepcopy(self.model)
+        if self.n_trees is not None:
+            self.model.n_trees = self.n_trees
         self.model.fit(X, y)
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
-        self.thresholds = self.method(self.null_distribution, self.percentile)
+        self.thresholds = THRESHOLD_METHODS[self.method](self.null_distribution, self.percentile)
         self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
-- 
2.43.0


From d92bb1e9acbfdf123c8d7be3e628d4777a7c1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 42/44] fix: report a fitted model as fitted, so that recent
 scikit-learn pipelines can predict with it

---
 bartpy/sklearnmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index e857e1a..339ce5f 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -138,6 +138,9 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             self.schedule.tree_sampler = self.tree_sampler
         return self
 
+    def __sklearn_is_fitted__(self) -> bool:
+        return self._model_samples is not None
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From 7e069f06e959bdfe382ceebaae50c429ac8e2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 43/44] fix: ResidualBART fits its own clone of the base
 estimator, which other models may share

---
 bartpy/extensions/baseestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 95b8e84..68674c5 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,7 +23,7 @@ class ResidualBART(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
-        self.base_estimator.fit(X, y)
+        self.base_estimator = clone(self.base_estimator).fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
 
-- 
2.43.0


From d01dc4e325e5c642853f026bd0ef8641993a5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 44/44] fix: an extension whose BART half fails to fit keeps
 the base half of the last completed fit

---
 bartpy/extensions/baseestimator.py | 6 ++++--
 bartpy/extensions/ols.py           | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 68674c5..93cd203 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -23,8 +23,10 @@ class ResidualBART(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
-        self.base_estimator = clone(self.base_estimator).fit(X, y)
-        SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
+        # Kept only with the samples that go with it, as the fit of BART may fail
+        base_estimator = clone(self.base_estimator).fit(X, y)
+        SklearnModel.fit(self, X, y - base_estimator.predict(X))
+        self.base_estimator = base_estimator
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 091dffe..b0d1ab4 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -19,8 +19,9 @@ class OLS(SklearnModel):
         return sorted(set(super()._get_param_names()) | set(SklearnModel._get_param_names()))
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
-        self.stat_model_fit = self.stat_model(y, X).fit()
-        SklearnModel.fit(self, X, self.stat_model_fit.resid)
+        stat_model_fit = self.stat_model(y, X).fit()
+        SklearnModel.fit(self, X, stat_model_fit.resid)
+        self.stat_model_fit = stat_model_fit
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
-- 
2.43.0

