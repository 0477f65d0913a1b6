From 541e2be95d767ede352044fa37ef6c2008463e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:24 +0000
Subject: [PATCH 01/10] fix: give ACTStates.error_mode a default and let
 replace set depression_constant and error_mode

Every constructor call in the package omits error_mode, so ControllerBuilder.new_builder
raised TypeError; replace() called validate_* methods that do not exist.
---
 src/jax_act/core/states.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..e86ad4c 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,14 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
 
         return ACTStates(epsilon,
@@ -171,7 +165,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From aa2b04bf298ce8531a968dce7199cd1dd03654cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 02/10] fix: reset_batches broadcasts its selector to the leaf
 being reset

It used the whole accumulator, so any accumulator that is a tuple, list or
dict of tensors raised AttributeError.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From c563311a62df352deb388ad251e6d7998a85d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 03/10] fix: ACTViewer.transform builds the transformed updates
 from the updates

They were built from the defaults, so every transformed or masked viewer
showed default values as pending updates.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 1a3a88366fdfc6ec8885be129ed62fd81596ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 04/10] fix: check the controller run_iteration returned for
 uncommitted updates

The check looked at the controller passed in, so a layer that cached updates
and never called iterate_act was accepted.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From ce2fa759fba611190a2e1d1179c4463091d70cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 05/10] fix: iterate_act keeps the dtype an accumulator was
 defined with

An accumulator narrower than the probabilities (say bfloat16 with the default
core dtype) made jax.lax.select raise on the promoted sum.
---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..8406f61 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -230,6 +230,7 @@ class ACT_Controller(Immutable):
         # only accumulators which have not already reached a halting state get updated.
 
         new_accumulators = accumulator_value + halting_probabilities * update_value
+        new_accumulators = new_accumulators.astype(accumulator_value.dtype)
         return jax.lax.select(halted_batches, accumulator_value, new_accumulators)
 
 
-- 
2.43.0


From 114a923dfc33d8dbb883f2c6173bf289a4157362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 06/10] fix: are_pytrees_equal returns False for trees of
 different structure

It failed an assertion when the number of leaves differed, and called trees
of different structure with equal leaves equal.
---
 src/jax_act/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..fb512d2 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -308,6 +308,8 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         else:
             return leaf_one == leaf_two
 
+    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
+        return False
     result_tree = merge_pytrees(are_leaves_equal, tree_one, tree_two)
     leaves = jax.tree_util.tree_flatten(result_tree)[0]
     return all(leaves)
-- 
2.43.0


From 6a91e87d45d56f899ea3fb41271e5abc9b19fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 07/10] fix: TensorEditor rejects None in place of an
 accumulator or default tensor

The leaves were only compared pairwise, and the structure test accepts None
for any leaf, so set_accumulator(name, None) was accepted in standard mode.
---
 src/jax_act/core/tensoreditor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..6d7ac3e 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,15 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # The structure test treats None as matching any leaf, so a missing
+        # tensor only shows up in the number of leaves.
+        msg = f"""
+        The original tree had {len(original_leaves)} tensor leaves.
+        However, the update has {len(new_leaves)}.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From cf77e96e8df1b95e0d8834af32462031e646a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 08/10] fix: flatten ACTStates without its error mode as a leaf
 and without asdict

A string leaf made any jitted function reject a state, controller, viewer or
editor whose error mode was set, and asdict turned dataclass nodes inside an
accumulator into dicts.
---
 src/jax_act/core/states.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index e86ad4c..e39a696 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -173,8 +173,12 @@ class ACTStates:
 # This involves manually pulling out and then flattening
 # the keys from the state, and doing the reverse to put
 # everything back together.
+#
+# The error mode is configuration, not data: it travels in the
+# auxiliary data, since jax does not accept a string as a leaf.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    state = {field.name: getattr(state, field.name) for field in fields(state)}
+    error_mode = state.pop("error_mode")
 
     aux_out = []
     values = []
@@ -183,14 +187,15 @@ def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
 
         aux_out.append(aux)
         values.append(value)
-    return zip(state.keys(), values), aux_out
+    return zip(state.keys(), values), (aux_out, error_mode)
 
 def state_unflatten(aux_data: Any, flat_state: Any) -> ACTStates:
 
+    aux_data, error_mode = aux_data
     values = []
     for value, tree_def in zip(flat_state, aux_data):
         value = jax.tree_util.tree_unflatten(tree_def, value)
         values.append(value)
-    return ACTStates(*values)
+    return ACTStates(*values, error_mode=error_mode)
 
 jax.tree_util.register_pytree_with_keys(ACTStates, state_flatten, state_unflatten)
\ No newline at end of file
-- 
2.43.0


From 412406be0f24049d8a10108b002b12a0a8251d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 09/10] fix: define the ErrorModes that
 ACTStates.execute_validation compares against

The name was never defined, so every ACTStates.validate_* method raised NameError.
---
 src/jax_act/core/states.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index e39a696..597faec 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -13,6 +13,15 @@ from jax.experimental import checkify
 from src.jax_act.core.types import PyTree
 from src.jax_act.core import utils
 
+class ErrorModes(str, Enum):
+    """
+    The error modes under which a state
+    validates what it is given. In any other
+    mode, nothing is validated.
+    """
+    checkify = 'checkify'
+    debug = 'debug'
+
 @dataclass
 class EditorConfig:
     """
-- 
2.43.0


From 00824ae7a0986804cc20c3ab2834b9be6786cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 10/10] fix: keep epsilon from being rounded away in the
 halting threshold

The threshold was a weakly typed number, so beside float16 or bfloat16
probabilities one minus the default epsilon became one: a batch whose
probability reached one was never seen as halted, and it lost its residuals.
---
 src/jax_act/core/controller.py | 4 +++-
 src/jax_act/core/viewer.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 8406f61..3cc3e80 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -114,7 +114,9 @@ class ACT_Controller(Immutable):
     # Inferred properties
     @property
     def halt_threshold(self)->float:
-        return 1-self.state.epsilon
+        # Strongly typed, so that narrow probabilities are promoted when compared. In
+        # float16 or bfloat16 one minus a small epsilon is one, and nothing could halt.
+        return jnp.asarray(1-self.state.epsilon, dtype=float)
     @property
     def halted_batches(self)->jnp.ndarray:
         return self.probabilities > self.halt_threshold
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..4b7a3c4 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -75,7 +75,9 @@ class ACTViewer(Immutable):
         return self.state.updates
     @property
     def halt_threshold(self)->float:
-        return 1-self.state.epsilon
+        # Strongly typed, so that narrow probabilities are promoted when compared. In
+        # float16 or bfloat16 one minus a small epsilon is one, and nothing could halt.
+        return jnp.asarray(1-self.state.epsilon, dtype=float)
     @property
     def halted_batches(self)->jnp.ndarray:
         return self.probabilities > self.halt_threshold
-- 
2.43.0

