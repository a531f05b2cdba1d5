From 5862e713fc26f30446a3cb8dbd2be23e07664712 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 01/15] fix: let ACTStates be constructed without an error mode

ControllerBuilder.new_builder (and every other caller) never passes error_mode,
so no controller could be built at all.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From d6112db4000a377d782b3e4f6db74c9d7c4f054b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 02/15] fix: ACTStates.replace can replace depression_constant
 and error_mode

Both branches called validators that do not exist and raised AttributeError.
---
 src/jax_act/core/states.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..6e21c9a 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -145,13 +145,8 @@ class ACTStates:
 
         if depression_constant is None:
             depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
         if error_mode is None:
             error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
 
         return ACTStates(epsilon,
                          iterations,
-- 
2.43.0


From 4d993ddf2fe6787a533cfda23c6294732cf43b63 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 03/15] fix: reset_batches works on pytree accumulators

The selector was broadcast against the whole accumulator tree, which has no
shape unless it is a bare tensor, instead of against the leaf.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From f11ee23b1d40e75a97ae5d3e51054790d94a4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 04/15] fix: ACTViewer.transform transforms the updates, not
 the defaults

Every view replaced the pending updates by a transformed copy of the defaults.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From c374f36d3cebf300849a23080acbd26c9e40e69d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 05/15] fix: masked viewer entries are zero even where they
 held inf or nan

Multiplying by a zero mask leaves nan behind for non-finite entries.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..ea16802 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From 005aec747cadc61095e805a7f068d6fe6dafc193 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 06/15] fix: check the returned controller for uncommitted
 updates

run_iteration validated the controller it was given, so a layer that never
committed its updates was not detected.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From fec3fa25567bba0c4f077e009ef27c41e3ad87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 07/15] fix: the editor rejects trees that lack tensors of the
 original

A None in place of a tensor passed both the structure and the leaf validation.
---
 src/jax_act/core/tensoreditor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..a368193 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,13 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        msg = f"""
+        The original tensor collection had {len(original_leaves)} leaves.
+        However, the new one has {len(new_leaves)} leaves
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From 53e071e86f2dfd745bddac0ce4267f80b9a1fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 08/15] fix: the editor rejects nan as a probability

---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index a368193..35498cc 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -182,14 +182,14 @@ class TensorEditor(Immutable):
         A tensor representing probabilities had elements less than zero
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor < 0), msg)
+        checkify.check(jnp.all(tensor >= 0), msg)
 
         # Check high
         msg = """
         A tensor representing probabilities had elements greater than one
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor > 1.0), msg)
+        checkify.check(jnp.all(tensor <= 1.0), msg)
     @staticmethod
     def _validate_is_natural_numbers(tensor: jnp.ndarray,
                                      context: str):
-- 
2.43.0


From 3a6c72a1b5225c2cb07572fc50ccc8a77882f894 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 09/15] fix: new_builder rejects nan as an epsilon

---
 src/jax_act/core/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 440ebc3..3994abb 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -430,7 +430,7 @@ class ControllerBuilder(Immutable):
             msg = "dtype of probabilities core must be floating"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-        if (epsilon >= 1.0) or (epsilon <= 0.0):
+        if not ((epsilon < 1.0) and (epsilon > 0.0)):
             msg = "epsilon insane: Not between 0 and 1"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-- 
2.43.0


From 4d4ee769c2e63e3296dae87dbfd33f858e864e28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 10/15] fix: flattening a state keeps dataclass pytrees intact

asdict recursed into the accumulators and turned registered dataclass nodes
into plain dictionaries, so a controller did not survive a pytree round trip.
---
 src/jax_act/core/states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 6e21c9a..6698d0d 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -175,7 +175,9 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    # The fields are not converted any deeper: a dataclass inside of an
+    # accumulator is a pytree node of its own.
+    state = {item.name: getattr(state, item.name) for item in fields(state)}
 
     aux_out = []
     values = []
-- 
2.43.0


From 2d7ccd4592fb8931fd51dca4a06a47eff0d6764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 11/15] fix: are_pytrees_equal tells trees of different
 structure or shape apart

---
 src/jax_act/core/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..bf809d4 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -301,6 +301,8 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         if type(leaf_one) != type(leaf_two):
             return False
         elif isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
+            if leaf_one.shape != leaf_two.shape:
+                return False
             if use_allclose:
                 return jnp.allclose(leaf_one, leaf_two)
             else:
@@ -308,6 +310,10 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         else:
             return leaf_one == leaf_two
 
+    # Trees of different structure are never equal, even if their leaves match
+    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
+        return False
+
     result_tree = merge_pytrees(are_leaves_equal, tree_one, tree_two)
     leaves = jax.tree_util.tree_flatten(result_tree)[0]
     return all(leaves)
-- 
2.43.0


From af61cf0183fba6beefd918dba1916cc9748fcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 12/15] fix: the documented ControllerBuilder.delete_definition
 exists

---
 src/jax_act/core/builder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 3994abb..00a715e 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -274,6 +274,16 @@ class ControllerBuilder(Immutable):
 
         return ControllerBuilder(state)
 
+    def delete_definition(self, name: str)->'ControllerBuilder':
+        """
+        Removes an accumulator, along with its default and update.
+
+        :param name: The name of the accumulator to remove
+        :return: A new ControllerBuilder.
+        :raises: KeyError, if there is no such accumulator.
+        """
+        return self._delete_definition(name)
+
     def define_accumulator_directly(self,
                                    name: str,
                                    definition: PyTree,
-- 
2.43.0


From 5742251f60842724fc539d6f73a3fae59ab88d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 13/15] fix: broadcasting an empty node onto another kind of
 node is refused cleanly

---
 src/jax_act/core/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index bf809d4..295471d 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -491,7 +491,17 @@ def _replicate_leaves(source_treedef: PyTreeDef,
     if jax.tree_util.treedef_is_leaf(source_treedef):
         if _is_empty_collection(source_treedef):
             # Bugfix. Collections that are currently empty will be identified
-            # as leaves, but not displaced during flatten. We skip those.
+            # as leaves, but not displaced during flatten. We skip those,
+            # so long as the target has nothing to fill there either.
+            if source_treedef != target_treedef:
+                msg = f"""
+                Source tree was not broadcastable.
+
+                Source tree had an empty node {source_treedef} at a position
+                where target tree had {target_treedef}. This is not allowed.
+                """
+                msg = format_error_message(msg, context_message)
+                raise RuntimeError(msg)
             return [], source_leaves_queue
 
         node_to_repeat = source_leaves_queue.pop(0)
-- 
2.43.0


From 6da598633d75014976fda6fb64dd936e3f5df5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 14/15] fix: the editor rejects trees whose None and tensors
 are swapped

The structure validation blanks leaves into None, and so took a tree with
None where the original has a leaf, and a leaf where it has None, for equal.
---
 src/jax_act/core/tensoreditor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 35498cc..bfe9688 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -259,6 +259,15 @@ class TensorEditor(Immutable):
         msg = utils.format_error_message(msg, info)
         checkify.check(len(original_leaves) == len(new_leaves), msg)
 
+        # The structure validation treats None like any leaf.
+        msg = """
+        The new tensor collection has None where the original had a leaf
+        """
+        msg = utils.format_error_message(msg, info)
+        original_structure = jax.tree_util.tree_structure(original)
+        new_structure = jax.tree_util.tree_structure(new)
+        checkify.check(original_structure == new_structure, msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From cd44bdc7b11adbf548616f3da7a45e0222c9fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:29 +0000
Subject: [PATCH 15/15] fix: broadcasting compares all static data of nodes,
 not only keys position by position

---
 src/jax_act/core/utils.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 295471d..84365fb 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -414,26 +414,22 @@ def _validate_children_descent(source_treenode: PyTreeDef,
         """
         msg = format_error_message(msg, context_string)
         raise RuntimeError(msg)
-    if source_keys is not None:
-        # We are working with a node that has keys, like a dictionary
-        #
-        # We know at this point source and target keys will be the same length,
-        # and are from the same kind of object
-        for source_key, target_key in zip(source_keys, target_keys):
-            if source_key != target_key:
-                msg = f"""
-                Two trees could not be broadcast together due to mismatched 
-                tree shape. 
-                
-                A key holding a child on the source node, named '{source_key}',
-                was not also found in the same position on target node, instead found
-                '{target_key}'
-                
-                Dictionaries and other ordered objects must be in the same order for both
-                trees. Did you define two dictionaries with the keys in differing orders?
-                """
-                msg = format_error_message(msg, context_string)
-                raise RuntimeError(msg)
+    if source_keys != target_keys:
+        # The nodes carry static data, such as the keys of a dictionary, which
+        # is not the same
+        msg = f"""
+        Two trees could not be broadcast together due to mismatched 
+        tree shape. 
+        
+        The source tree had a node of type {source_class} with keys, or other
+        static data, '{source_keys}'. However, the node in the same place at
+        the target tree instead had '{target_keys}'
+        
+        Dictionaries and other ordered objects must be in the same order for both
+        trees. Did you define two dictionaries with the keys in differing orders?
+        """
+        msg = format_error_message(msg, context_string)
+        raise RuntimeError(msg)
 
 
 
-- 
2.43.0

