From 6d07b94c8a479edee0fba06c3b3f7e6ab94a9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 01/48] fix: is_not_constant ignored the first value of the
 series

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9bfa535 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(0, len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From d9ad9768b739d7a8e130cb975fbef1e179176bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 02/48] fix: constant targets were normalized to nan

---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9bfa535..beaf26a 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_min == y_max:
+            return np.zeros(len(y))  # A constant target has no range to normalize by
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 7db92d1d690e8bcddc5ee4b3547a36dc1bb39a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 03/48] fix: fit on integer targets overflowed and on mixed
 dtype frames crashed

---
 bartpy/sklearnmodel.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..c7e903d 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -6,7 +6,7 @@ import pandas as pd
 from joblib import Parallel, delayed
 from sklearn.base import RegressorMixin, BaseEstimator
 
-from bartpy.data import Data
+from bartpy.data import Data, make_bartpy_data
 from bartpy.initializers.initializer import Initializer
 from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
 from bartpy.model import Model
@@ -154,11 +154,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
     @staticmethod
     def _convert_covariates_to_data(X: np.ndarray, y: np.ndarray) -> Data:
-        from copy import deepcopy
-        if type(X) == pd.DataFrame:
-            X: pd.DataFrame = X
-            X = X.values
-        return Data(deepcopy(X), deepcopy(y), normalize=True)
+        return make_bartpy_data(X, y, normalize=True)
 
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
-- 
2.43.0


From 70a69f1a23c7d46432d97959108ab65cb3954ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 04/48] fix: predicting with an already grown tree sized its
 buffer from an arbitrary node

---
 bartpy/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..c1c2740 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -83,10 +83,10 @@ class Tree:
 
         if self.cache_up_to_date:
             return self._prediction
+        prediction = np.zeros(len(self.nodes[0].data.mask))
         for leaf in self.leaf_nodes:
-            if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
-            self._prediction[leaf.split.condition()] = leaf.predict()
+            prediction[leaf.split.condition()] = leaf.predict()
+        self._prediction = prediction
         self.cache_up_to_date = True
         return self._prediction
 
-- 
2.43.0


From a888be5d1ab362e4cd978335a41d32fcc4f6a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 05/48] fix: stored trees kept links into the tree still being
 sampled

---
 bartpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index c1c2740..4b5cf7a 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -171,4 +171,9 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = {id(x): deep_copy_node(x) for x in tree.nodes}
+    for copied_node in copies.values():
+        if type(copied_node) == DecisionNode:  # Link to copied children, the originals carry on being sampled
+            copied_node._left_child = copies[id(copied_node.left_child)]
+            copied_node._right_child = copies[id(copied_node.right_child)]
+    return Tree(list(copies.values()))
-- 
2.43.0


From 538de49ed0081b366135c5785b6158ebfb960719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 06/48] fix: stored models lost the prior parameters they were
 sampled with

---
 bartpy/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..d2cd525 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -87,5 +87,6 @@ class Model:
 
 
 def deep_copy_model(model: Model) -> Model:
-    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees])
+    copied_model = Model(None, deepcopy(model.sigma), [deep_copy_tree(tree) for tree in model.trees],
+                         alpha=model.alpha, beta=model.beta, k=model.k)
     return copied_model
-- 
2.43.0


From da981e351795c63b54b5b335e03ed8416bba0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 07/48] fix: splitting a node left stale counts on the caller's
 split condition

---
 bartpy/node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bartpy/node.py b/bartpy/node.py
index 80bd841..5c8c003 100644
--- a/bartpy/node.py
+++ b/bartpy/node.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Union, Tuple
 
 from bartpy.data import Data
@@ -88,10 +89,11 @@ def split_node(node: LeafNode, split_conditions: Tuple[SplitCondition, SplitCond
     The left node contains all values for the splitting variable less than the splitting value
     """
     left_split = node.split + split_conditions[0]
-    split_conditions[1].carry_n_obsv = node.data.X.n_obsv - left_split.data.X.n_obsv
-    split_conditions[1].carry_y_sum = node.data.y.summed_y() - left_split.data.y.summed_y()
+    right_condition = copy(split_conditions[1])  # The carried values only apply to this node, so leave the original alone
+    right_condition.carry_n_obsv = node.data.X.n_obsv - left_split.data.X.n_obsv
+    right_condition.carry_y_sum = node.data.y.summed_y() - left_split.data.y.summed_y()
 
-    right_split = node.split + split_conditions[1]
+    right_split = node.split + right_condition
 
     return DecisionNode(node.split,
                         LeafNode(left_split, depth=node.depth + 1),
-- 
2.43.0


From 65a82d303dc344739d704893031d6a56d9955002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 08/48] fix: initialized trees had no target values

---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index d2cd525..d373da7 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From 37fe6695389ef18e4953151a267b17f3ca7fb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 09/48] fix: sklearn tree initializer read attributes and used
 a loss that don't exist

---
 bartpy/initializers/sklearntreeinitializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From 9cc9dac2b26f4439dd99e67d0c56aaf262cfcc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 10/48] fix: likelihood ratio mixed the standard deviation of
 the leaf prior in place of its variance

---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From 5bde3ef076b347bc1ee2432ad22a4e37ff22a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 11/48] fix: mutations were accepted by comparing a uniform
 draw to the log of the ratio

---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From dfef22f5071d7ec255462de213313aad5f6dc4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 12/48] fix: tree prior ratio of a grow included the
 probability of proposing the node

---
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..03be3d5 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -108,7 +108,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
-- 
2.43.0


From 1d7cf548755834c6d7b5c460904694285d3dc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 13/48] fix: transition ratios miscounted the nodes available
 to the reverse mutation

---
 .../unconstrainedtree/likihoodratio.py        | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 03be3d5..cf2123a 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -78,7 +78,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        prob_prune_selected = - np.log(n_prunable_decision_nodes_after_grow(tree, mutation))
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
@@ -87,10 +87,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        prob_grow_node_selected = - np.log(n_splittable_leaf_nodes_after_prune(tree, mutation))
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
@@ -142,6 +139,24 @@ def n_splittable_leaf_nodes(tree: Tree) -> int:
     return len(tree.splittable_leaf_nodes)
 
 
+def n_prunable_decision_nodes_after_grow(tree: Tree, mutation: GrowMutation) -> int:
+    """
+    The number of prunable decision nodes there will be once a leaf has been grown
+    The grown node becomes prunable, but its parent no longer is
+    """
+    parent_prunable = any(mutation.existing_node in (x.left_child, x.right_child) for x in tree.prunable_decision_nodes)
+    return n_prunable_decision_nodes(tree) + 1 - int(parent_prunable)
+
+
+def n_splittable_leaf_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
+    """
+    The number of splittable leaf nodes there will be once a decision node has been pruned
+    The pruned node becomes a splittable leaf and its children are dropped
+    """
+    pruned_leaves = [mutation.existing_node.left_child, mutation.existing_node.right_child]
+    return n_splittable_leaf_nodes(tree) + 1 - len([x for x in pruned_leaves if x.is_splittable()])
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
-- 
2.43.0


From fb1ff8077189154f6166322105848d563238b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 14/48] fix: transition ratios ignored that only one kind of
 mutation may be possible

---
 .../unconstrainedtree/likihoodratio.py        | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index cf2123a..0b486f7 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -82,7 +82,9 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        prob_grow = self.prob_method[0] if n_prunable_decision_nodes(tree) > 0 else 1.
+        prob_prune = self.prob_method[1] if n_splittable_leaf_nodes_after_grow(tree, mutation) > 0 else 1.
+        prune_grow_ratio = np.log(prob_prune / prob_grow)
 
         return prune_grow_ratio + prob_selection_ratio
 
@@ -94,7 +96,9 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
 
         prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        prob_grow = self.prob_method[0] if n_prunable_decision_nodes_after_prune(tree, mutation) > 0 else 1.
+        prob_prune = self.prob_method[1] if n_splittable_leaf_nodes(tree) > 0 else 1.
+        grow_prune_ratio = np.log(prob_grow / prob_prune)
 
         return grow_prune_ratio + prob_selection_ratio
 
@@ -148,6 +152,24 @@ def n_prunable_decision_nodes_after_grow(tree: Tree, mutation: GrowMutation) ->
     return n_prunable_decision_nodes(tree) + 1 - int(parent_prunable)
 
 
+def n_splittable_leaf_nodes_after_grow(tree: Tree, mutation: GrowMutation) -> int:
+    """
+    The number of splittable leaf nodes there will be once a leaf has been grown
+    """
+    grown_leaves = [mutation.updated_node.left_child, mutation.updated_node.right_child]
+    return n_splittable_leaf_nodes(tree) - 1 + len([x for x in grown_leaves if x.is_splittable()])
+
+
+def n_prunable_decision_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
+    """
+    The number of prunable decision nodes there will be once a decision node has been pruned
+    The parent of the pruned node becomes prunable if its other child is also a leaf
+    """
+    parent_prunable = any(mutation.existing_node in (x.left_child, x.right_child) and
+                          LeafNode in (type(x.left_child), type(x.right_child)) for x in tree.decision_nodes)
+    return n_prunable_decision_nodes(tree) - 1 + int(parent_prunable)
+
+
 def n_splittable_leaf_nodes_after_prune(tree: Tree, mutation: PruneMutation) -> int:
     """
     The number of splittable leaf nodes there will be once a decision node has been pruned
-- 
2.43.0


From 760c3a70e11d9c192d89cd027c02e06142358457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 15/48] fix: leaf values were drawn with the posterior variance
 divided by the number of trees

---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From 8808514983aac36e0d37681bba6dec0fe56bedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 16/48] fix: proposing a mutation recursed without end when a
 tree could not be grown or pruned

---
 bartpy/samplers/unconstrainedtree/proposer.py   | 17 ++++++++++-------
 .../samplers/unconstrainedtree/treemutation.py  |  6 +++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..d768581 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -41,13 +41,16 @@ class UniformMutationProposer(TreeMutationProposer):
                                               cache_size=1000)
 
     def propose(self, tree: Tree) -> TreeMutation:
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+        possible_methods = [x for (x, proba) in self.prob_method_lookup.items() if proba > 0]
+        while len(possible_methods) > 0:
+            method = self.method_sampler.sample()
+            if method not in possible_methods:
+                continue
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                possible_methods.remove(method)
+        raise NoSplittableVariableException()
 
 
 def random_splittable_leaf_node(tree: Tree) -> LeafNode:
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..98c670c 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -2,6 +2,7 @@ from typing import Optional
 
 import numpy as np
 
+from bartpy.errors import NoSplittableVariableException
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +39,10 @@ class UnconstrainedTreeMutationSampler(Sampler):
         self._scalar_sampler = scalar_sampler
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
-        proposal = self.proposer.propose(tree)
+        try:
+            proposal = self.proposer.propose(tree)
+        except NoSplittableVariableException:
+            return None  # The tree can be neither grown nor pruned
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From 8c856005a026447da4168503624ecb1791f3acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 17/48] fix: oblivious sampler gave leaves that can't be split
 two children with the same rows

---
 bartpy/samplers/oblivioustrees/proposer.py    | 30 ++++++++++++-------
 .../samplers/oblivioustrees/treemutation.py   |  6 +++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..d813814 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,11 +13,17 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    splittable_nodes = tree.splittable_leaf_nodes
+    if len(splittable_nodes) == 0:
+        raise NoSplittableVariableException()
+    return [GrowMutation(x, sample_split_node(x)) for x in splittable_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
-    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in tree.prunable_decision_nodes]
+    leaf_parents = tree.prunable_decision_nodes
+    if len(leaf_parents) == 0:
+        raise NoPrunableNodeException()
+    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in leaf_parents]
 
 
 class UniformMutationProposer(TreeMutationProposer):
@@ -25,18 +31,22 @@ class UniformMutationProposer(TreeMutationProposer):
     def __init__(self,
                  p_grow: float=0.5,
                  p_prune: float=0.5):
+        self.prob_methods = [(grow_mutations, p_grow), (prune_mutations, p_prune)]
         self.method_sampler = DiscreteSampler([grow_mutations, prune_mutations],
                                               [p_grow, p_prune],
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
-        method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+    def propose(self, tree: Tree) -> List[TreeMutation]:
+        possible_methods = [x for (x, proba) in self.prob_methods if proba > 0]
+        while len(possible_methods) > 0:
+            method = self.method_sampler.sample()
+            if method not in possible_methods:
+                continue
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                possible_methods.remove(method)
+        raise NoSplittableVariableException()
 
 
 def sample_split_condition(node: LeafNode) -> Optional[Tuple[SplitCondition, SplitCondition]]:
diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..6d3a9b2 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -2,6 +2,7 @@ from typing import Optional, List
 
 import numpy as np
 
+from bartpy.errors import NoSplittableVariableException
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +39,10 @@ class UnconstrainedTreeMutationSampler(Sampler):
         self._scalar_sampler = scalar_sampler
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
-        proposals: List[TreeMutation] = self.proposer.propose(tree)
+        try:
+            proposals: List[TreeMutation] = self.proposer.propose(tree)
+        except NoSplittableVariableException:
+            return None  # The tree can be neither grown nor pruned
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
-- 
2.43.0


From d42c190063cd28e3f89f7396bc28cc8ff368f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 18/48] fix: thinning stored too few samples unless the
 percentage divides evenly

---
 bartpy/samplers/modelsampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..07cdb29 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -47,10 +47,12 @@ class ModelSampler(Sampler):
         print("Starting sampling")
 
         thin_inverse = 1. / thin
+        n_stored = 0
 
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if ss >= n_stored * thin_inverse:
+                n_stored += 1
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From 6c4d5efd39fc1e27077f46c91b8ea0df71af1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 19/48] fix: prediction_samples recursed into itself

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c7e903d..c64d3b7 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -334,7 +334,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From 6d48e4d26e76b069ab2b9c7713fb16eb0fd575ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 20/48] fix: from_extract put the samples on the template
 instead of the new model

---
 bartpy/sklearnmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c64d3b7..704ba22 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -356,7 +356,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From 6dd781dd9045d2cdee05b5bb5a224324851dc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 21/48] fix: null RMSE distribution scored training rows
 against test targets

---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From 441c52a65bca89bb4e7428ce5ff7d249587fba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 22/48] fix: split proportions counted root nodes as splits

---
 bartpy/diagnostics/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..83aa902 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,7 +20,8 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:  # Root nodes aren't the result of a split
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
         columns = sorted(list([x for x in counter.keys() if x is not None]))
-- 
2.43.0


From ee5eb5b87ba080b908ee7e41e86ac0f41cfe6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 23/48] fix: feature thresholds read percentiles between 0 and
 1 as being out of 100

---
 bartpy/diagnostics/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 83aa902..e14da15 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -127,7 +127,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.quantile(null_distributions[feature], percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -158,7 +158,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     df = pd.DataFrame(null_distributions)
     for row in df.iter_rows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From fd74dc9b4b498810d7068d4392ed79ef0e2164a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 24/48] fix: global_thresholds called a DataFrame method that
 doesn't exist

---
 bartpy/diagnostics/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index e14da15..4c5189e 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -156,7 +156,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for row in df.values:
         q_s.append(np.max(row))
     threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
-- 
2.43.0


From e1bf28d343d838431f61d99fdc18d269ed3aef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 25/48] fix: feature selection imported a private sklearn
 module that was removed

---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..a01803c 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
-- 
2.43.0


From 5781973b826331bc060f0f50370c4e111b16d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 26/48] fix: feature selectors dropped never used features from
 their support mask

---
 bartpy/features/featureselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index a01803c..5720bb1 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 79d97fe1b6c592e51191bfef4d94dd3e9deab035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 27/48] fix: unsupported selection methods raised
 AttributeError instead of NotImplementedError

---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 5720bb1..f023a3b 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -46,7 +46,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         elif method == "global":
             self.method = global_thresholds
         else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
         self.model = deepcopy(model)
         if n_trees is not None:
             self.model.n_trees = n_trees
-- 
2.43.0


From 74ddea5ead56e4041e05c45d3136dadc1c07e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 28/48] fix: ResidualBART imported a private sklearn module
 that was removed

---
 bartpy/extensions/baseestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..796f629 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
-- 
2.43.0


From 7b55a0cab55ac4d6471ed1d7f4ec5e048ee44983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 29/48] fix: in sample prediction of the residual models passed
 on a wrapper instead of the covariates

---
 bartpy/extensions/baseestimator.py | 2 +-
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 796f629..43e53a6 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -25,7 +25,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From fc3511ba5c6534204563c5f3f2eae7af2342df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 30/48] fix: ResidualBART trained the estimator it was given
 instead of a copy

---
 bartpy/extensions/baseestimator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 43e53a6..663b55f 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -11,14 +11,13 @@ class ResidualBART(SklearnModel):
                  base_estimator: RegressorMixin = None,
                  **kwargs):
 
-        if base_estimator is not None:
-            self.base_estimator = clone(base_estimator)
-        else:
+        if base_estimator is None:
             base_estimator = LinearRegression()
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
+        self.base_estimator = clone(self.base_estimator)  # Don't train an estimator somebody else may be using
         self.base_estimator.fit(X, y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
-- 
2.43.0


From 3852edfefa60e94fd8e9f04df3c8f0f16c7a147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 31/48] fix: residual models compared their full prediction to
 the target of the trees alone

---
 bartpy/extensions/baseestimator.py | 5 +++++
 bartpy/extensions/ols.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 663b55f..0503d91 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -28,3 +28,8 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:  # The target of the trees is what is left over by the base model
+            y = self.model.data.y.unnormalized_y + self.base_estimator.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..dc44ed1 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -25,3 +25,8 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:  # The target of the trees is what is left over by the base model
+            y = self.model.data.y.unnormalized_y + self.stat_model_fit.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
-- 
2.43.0


From e61884f9f26074e27c2f72b1dfd18d23d3748546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 32/48] fix: cloning a residual model dropped the parameters of
 its trees

---
 bartpy/extensions/baseestimator.py | 4 ++++
 bartpy/extensions/ols.py           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 0503d91..df6ba48 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -16,6 +16,10 @@ class ResidualBART(SklearnModel):
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names() + SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator = clone(self.base_estimator)  # Don't train an estimator somebody else may be using
         self.base_estimator.fit(X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index dc44ed1..3520f00 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -14,6 +14,10 @@ class OLS(SklearnModel):
         self.stat_model_fit = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(set(super()._get_param_names() + SklearnModel._get_param_names()))
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
-- 
2.43.0


From e2d0fd2d59b20ad72e85e8d308816ab78b062c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 33/48] fix: setting tree_sampler through set_params had no
 effect on fitting

---
 bartpy/sklearnmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 704ba22..bf56cc8 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -121,6 +121,11 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        self.schedule.tree_sampler = self.tree_sampler
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From 912ae24da5ab2c8de828cf3712b2bd2786db1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 34/48] fix: chains run in parallel replayed the same cached
 random draws

---
 bartpy/samplers/scalar.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..8e19951 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -10,6 +10,9 @@ class NormalScalarSampler():
         self._cache_size = cache_size
         self._cache = []
 
+    def __getstate__(self):
+        return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
+
     def sample(self):
         if len(self._cache) == 0:
             self.refresh_cache()
@@ -26,6 +29,9 @@ class UniformScalarSampler():
         self._cache_size = cache_size
         self._cache = []
 
+    def __getstate__(self):
+        return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
+
     def sample(self):
         if len(self._cache) == 0:
             self.refresh_cache()
@@ -48,6 +54,9 @@ class DiscreteSampler():
         self._cache_size = cache_size
         self._cache = []
 
+    def __getstate__(self):
+        return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
+
     def sample(self):
         if len(self._cache) == 0:
             self.refresh_cache()
-- 
2.43.0


From 4f9c0800e682a7a93e10411fe2547975fe1c0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 35/48] fix: residual diagnostics passed positional arguments
 seaborn no longer takes

---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From 7ddd1d2add4663aa9184088ce45c6905dd6e84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 36/48] fix: plots read the target from an attribute that
 doesn't exist

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From ed7bf487d10bc45e0dabc0fb1f8a5ced6a6f792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 37/48] fix: feature importance failed on DataFrames

---
 bartpy/features/featureimportance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index f3bcee8..02a5967 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -6,6 +6,7 @@ import pandas as pd
 from matplotlib import pyplot as plt
 from sklearn.model_selection import KFold
 
+from bartpy.data import ensure_numpy_array
 from bartpy.runner import run_models
 from bartpy.sklearnmodel import SklearnModel
 
@@ -30,6 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From 6b3dd58dd034a1c6094c5d47412aeb62adfb6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 38/48] fix: chains run in threads could sample each other's
 model

---
 bartpy/sklearnmodel.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index bf56cc8..d658cdc 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -24,8 +24,8 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
-    model.model = model._construct_model(X, y)
-    return model.sampler.samples(model.model,
+    chain_model = model._construct_model(X, y)
+    return model.sampler.samples(chain_model,
                                  model.n_samples,
                                  model.n_burn,
                                  model.thin,
@@ -164,15 +164,16 @@ class SklearnModel(BaseEstimator, RegressorMixin):
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
             raise ValueError("Empty covariate matrix passed")
-        self.data = self._convert_covariates_to_data(X, y)
-        self.sigma = Sigma(self.sigma_a, self.sigma_b, self.data.y.normalizing_scale)
-        self.model = Model(self.data,
-                           self.sigma,
-                           n_trees=self.n_trees,
-                           alpha=self.alpha,
-                           beta=self.beta,
-                           initializer=self.initializer)
-        return self.model
+        data = self._convert_covariates_to_data(X, y)
+        sigma = Sigma(self.sigma_a, self.sigma_b, data.y.normalizing_scale)
+        model = Model(data,
+                      sigma,
+                      n_trees=self.n_trees,
+                      alpha=self.alpha,
+                      beta=self.beta,
+                      initializer=self.initializer)
+        self.data, self.sigma, self.model = data, sigma, model
+        return model
 
     def f_delayed_chains(self, X: np.ndarray, y: np.ndarray):
         """
-- 
2.43.0


From 3a0b686f26b15de7c2f7fb279c360778a9b75979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:19 +0000
Subject: [PATCH 39/48] fix: chains in forked workers repeated each other's
 draws

---
 bartpy/sklearnmodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index d658cdc..49a361d 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -1,3 +1,4 @@
+import os
 from copy import deepcopy
 from typing import List, Callable, Mapping, Union, Optional
 
@@ -19,11 +20,13 @@ from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
 from bartpy.sigma import Sigma
 
 
-def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
+def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray, parent_pid: int=None):
     """
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
     """
+    if parent_pid is not None and os.getpid() != parent_pid:
+        np.random.seed()  # Forked workers all start from the same copy of the random state
     chain_model = model._construct_model(X, y)
     return model.sampler.samples(chain_model,
                                  model.n_samples,
@@ -192,7 +195,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         -------
         List[Callable[[], ChainExtract]]
         """
-        return [delayed(x)(self, X, y) for x in self.f_chains()]
+        return [delayed(x)(self, X, y, os.getpid()) for x in self.f_chains()]
 
     def f_chains(self) -> List[Callable[[], Chain]]:
         """
-- 
2.43.0


From 469aa4e8e6968bfac279b6437e26ad02fd356d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:50 +0000
Subject: [PATCH 40/48] fix: residuals of a model made from extracted chains
 used the target of its template

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 49a361d..f5f6c58 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -252,7 +252,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             Error for each observation
         """
         if y is None:
-            return self.model.data.y.unnormalized_y - self.predict(X)
+            return self.data.y.unnormalized_y - self.predict(X)
         else:
             return y - self.predict(X)
 
-- 
2.43.0


From ae5d5fb665e24536811b55cd2690838847b8e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:53 +0000
Subject: [PATCH 41/48] fix: chains in threads could empty each other's cache
 of random draws

---
 bartpy/samplers/scalar.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 8e19951..c524cda 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -14,9 +14,11 @@ class NormalScalarSampler():
         return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # Empty, maybe only since a chain in another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.normal(size=self._cache_size))
@@ -33,9 +35,11 @@ class UniformScalarSampler():
         return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # Empty, maybe only since a chain in another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.uniform(size=self._cache_size))
@@ -58,9 +62,11 @@ class DiscreteSampler():
         return dict(self.__dict__, _cache=[])  # Copies make their own draws, e.g. in chains run in other processes
 
     def sample(self):
-        if len(self._cache) == 0:
-            self.refresh_cache()
-        return self._cache.pop()
+        while True:
+            try:
+                return self._cache.pop()
+            except IndexError:  # Empty, maybe only since a chain in another thread took the last draw
+                self.refresh_cache()
 
     def refresh_cache(self):
         self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
-- 
2.43.0


From f894f39dcbc4765b1f5eee44a93b15543eb5683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:49 +0000
Subject: [PATCH 42/48] fix: pipelines took a fitted model for an unfitted one

---
 bartpy/sklearnmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index f5f6c58..2291783 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -129,6 +129,9 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         self.schedule.tree_sampler = self.tree_sampler
         return self
 
+    def __sklearn_is_fitted__(self) -> bool:
+        return self._model_samples is not None
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From a4c6800dab20c10c34fbb3fb1899895d5e2ca095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 43/48] fix: split proportions were drawn on the current axes
 instead of those passed

---
 bartpy/diagnostics/features.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 4c5189e..fe7d3b7 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,12 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos)
+    ax.set_yticklabels(props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From c3328d370f23816befc87704e88f699ed861233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:35 +0000
Subject: [PATCH 44/48] fix: draw the given values themselves from a discrete
 sampler

---
 bartpy/samplers/scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index c524cda..8b18d64 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -69,4 +69,5 @@ class DiscreteSampler():
                 self.refresh_cache()
 
     def refresh_cache(self):
-        self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
+        drawn = np.random.choice(len(self._values), p=self._probas, size=self._cache_size)
+        self._cache = [self._values[i] for i in drawn]  # As given, an array would turn all of them into one type
-- 
2.43.0


From ec8ad00de7435634c8726c482abb8c92e6535c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 45/48] fix: initial splits between the values of a duplicated
 covariate were never pruned

---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 4 ++++
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index ac0f202..984a306 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -136,6 +136,10 @@ def log_probability_split_within_node(mutation: GrowMutation) -> float:
     """
     splitting_variable = mutation.updated_node.most_recent_split_condition().splitting_variable
     splitting_value = mutation.updated_node.most_recent_split_condition().splitting_value
+    column = mutation.existing_node.data.X.get_column(splitting_variable)
+    left_values = column[column <= splitting_value]
+    if len(left_values) > 0:  # Values between those of two rows, as in initialized trees, split like the lower one
+        splitting_value = left_values.max()
     prob_value_selected_within_variable = np.log(mutation.existing_node.data.X.proportion_of_value_in_variable(splitting_variable, splitting_value))
     return prob_value_selected_within_variable
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index 0b486f7..a164081 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -202,6 +202,10 @@ def log_probability_split_within_node(mutation: GrowMutation) -> float:
     prob_splitting_variable_selected = - np.log(mutation.existing_node.data.X.n_splittable_variables)
     splitting_variable = mutation.updated_node.most_recent_split_condition().splitting_variable
     splitting_value = mutation.updated_node.most_recent_split_condition().splitting_value
+    column = mutation.existing_node.data.X.get_column(splitting_variable)
+    left_values = column[column <= splitting_value]
+    if len(left_values) > 0:  # Values between those of two rows, as in initialized trees, split like the lower one
+        splitting_value = left_values.max()
     prob_value_selected_within_variable = np.log(mutation.existing_node.data.X.proportion_of_value_in_variable(splitting_variable, splitting_value))
     return prob_splitting_variable_selected + prob_value_selected_within_variable
 
-- 
2.43.0


From ed84f43939021f94c0e02289035a3cc33b4147c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 46/48] fix: values missing from a column without duplicates
 were reported as held by one row

---
 bartpy/data.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index beaf26a..b97c03e 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -185,10 +185,7 @@ class CovariateMatrix(object):
         return candidate
 
     def proportion_of_value_in_variable(self, variable: int, value: float) -> float:
-        if self.is_column_unique(variable):
-            return 1. / self.n_obsv
-        else:
-            return float(np.mean(self.get_column(variable) == value))
+        return float(np.mean(self.get_column(variable) == value))
 
     def update_mask(self, other: SplitCondition) -> np.ndarray:
         if other.operator == gt:
-- 
2.43.0


From 3b098ce3d4912aadc8b52bb9a557c9c09af72a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 47/48] fix: feature importance looked up the targets of folds
 by the index of a Series

---
 bartpy/features/featureimportance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 02a5967..39e56b1 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -31,7 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
-    X = ensure_numpy_array(X)
+    X, y = ensure_numpy_array(X), np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -78,7 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
-    X = ensure_numpy_array(X)
+    X, y = ensure_numpy_array(X), np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From 822cb85dac0fa75bb4ce8825d29316c74159bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 48/48] fix: residual plots placed a Series of targets by its
 index and not by row

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index b97c03e..4ab45b1 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -54,7 +54,7 @@ def make_bartpy_data(X: Union[np.ndarray, pd.DataFrame],
                      y: np.ndarray,
                      normalize: bool=True) -> 'Data':
     X = format_covariate_matrix(X)
-    y = y.astype(float)
+    y = np.array(y, dtype=float)  # Targets are held by position, without the index of a Series
     return Data(X, y, normalize=normalize)
 
 
-- 
2.43.0

