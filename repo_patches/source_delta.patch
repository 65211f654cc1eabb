From 6fa41dd6e3a818b62dc102286cdf888278a4d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 01/15] fix: give ACTStates.error_mode a default

ControllerBuilder.new_builder (and every eight-argument constructor call) raised
TypeError, so no controller could be built through the public API.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From 60e06649333ceba81f959093fc3ea5f62e79533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 02/15] fix: ACTStates.replace could not replace
 depression_constant or error_mode

It called validators which do not exist and raised AttributeError.
---
 src/jax_act/core/states.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..e86ad4c 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,14 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
 
         return ACTStates(epsilon,
-- 
2.43.0


From 91ea9a98e4eca49e90263805b883fd1044d111ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 03/15] fix: ACTViewer.transform replaced pending updates with
 the defaults

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From c9fc0d58e0b5a0541173deca765ba740003d35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 04/15] fix: reset_batches failed on accumulators which are
 pytrees

The selector was broadcast against the whole tree instead of the leaf.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From 4aa3a90a274b12f2d51949c48c55afb908d65743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 05/15] fix: contract validation looked for uncommitted updates
 on the wrong controller

The documented check is on the controller run_iteration returned.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From 965b0b9af7878677285359d9a0ea042c99595684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 06/15] fix: TensorEditor accepted None in place of a tensor of
 an accumulator

---
 src/jax_act/core/tensoreditor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..bc587fd 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -249,10 +249,23 @@ class TensorEditor(Immutable):
         :param new: The new pytree to test.
         """
 
-        original_leaves = jax.tree_util.tree_leaves(original)
-        new_leaves = jax.tree_util.tree_leaves(new)
+        # None is a leaf here, as it is when comparing the tree structures. Otherwise
+        # a None replacing a tensor would be skipped, and the rest misaligned.
+        is_none = lambda leaf : leaf is None
+        original_leaves = jax.tree_util.tree_leaves(original, is_leaf=is_none)
+        new_leaves = jax.tree_util.tree_leaves(new, is_leaf=is_none)
 
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
+            if original_leaf is None or new_leaf is None:
+                msg = f'''
+                An issue occurred in leaf {i}
+
+                Only one of the original and the update was a tensor, the other was None.
+                '''
+                msg = utils.format_error_message(msg, info)
+                checkify.check(original_leaf is new_leaf, msg)
+                continue
+
             # Check if leaf has same shape
             msg = f"""
             An issue occurred in leaf {i}
-- 
2.43.0


From 118235c387ceb09cf5867ff4d61c0fc2ef80b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 07/15] fix: new_builder accepted a NaN epsilon

---
 src/jax_act/core/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 440ebc3..28d71c3 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -430,7 +430,7 @@ class ControllerBuilder(Immutable):
             msg = "dtype of probabilities core must be floating"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-        if (epsilon >= 1.0) or (epsilon <= 0.0):
+        if not (0.0 < epsilon < 1.0):
             msg = "epsilon insane: Not between 0 and 1"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-- 
2.43.0


From 923b9345a4a2b3fe248691fe2089a3e38ff342fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 08/15] fix: TensorEditor accepted NaN as a probability

---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index bc587fd..f709837 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -182,14 +182,14 @@ class TensorEditor(Immutable):
         A tensor representing probabilities had elements less than zero
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor < 0), msg)
+        checkify.check(jnp.all(tensor >= 0), msg)
 
         # Check high
         msg = """
         A tensor representing probabilities had elements greater than one
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor > 1.0), msg)
+        checkify.check(jnp.all(tensor <= 1.0), msg)
     @staticmethod
     def _validate_is_natural_numbers(tensor: jnp.ndarray,
                                      context: str):
-- 
2.43.0


From d405ccdd507cee4accc43fe381a65fa3aeae1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 09/15] fix: iterate_act failed when an accumulator dtype was
 not the core dtype

The builder accepts any floating dtype for an accumulator, but a float16
accumulator under a float32 core could never be iterated.
---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..d5f9754 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -223,6 +223,7 @@ class ACT_Controller(Immutable):
         # happen. This section accomplishes this.
         halted_batches = self.halted_batches
         halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)
+        halting_probabilities = halting_probabilities.astype(accumulator_value.dtype)
         halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)
         halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)
 
-- 
2.43.0


From 0e79ab5d9c8ace6775d1253fc4f50b850b34fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 10/15] fix: controllers with a low precision core dtype or a
 tiny epsilon never halted

1 - epsilon rounded to one (float16 and bfloat16 with the default epsilon,
float32 with 1e-9), and halting requires exceeding it.
---
 src/jax_act/core/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 28d71c3..c40dcf9 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -439,6 +439,10 @@ class ControllerBuilder(Immutable):
         residuals = jnp.zeros(batch_shape, core_dtype)
         iterations = jnp.zeros(batch_shape, core_dtype)
 
+        # An epsilon below the resolution of the dtype would round the halt threshold
+        # up to one, which no probability can exceed. Nothing would ever halt.
+        epsilon = max(epsilon, float(jnp.finfo(probabilities.dtype).epsneg))
+
         accumulators = {}
         defaults = {}
         updates = {}
-- 
2.43.0


From 35165820037a95176a8d9a914bba509c9c8c57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 11/15] fix: are_pytrees_equal ignored tree structure and leaf
 shapes

---
 src/jax_act/core/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..adbc854 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -301,6 +301,8 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         if type(leaf_one) != type(leaf_two):
             return False
         elif isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
+            if leaf_one.shape != leaf_two.shape:
+                return False
             if use_allclose:
                 return jnp.allclose(leaf_one, leaf_two)
             else:
@@ -308,6 +310,8 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         else:
             return leaf_one == leaf_two
 
+    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
+        return False
     result_tree = merge_pytrees(are_leaves_equal, tree_one, tree_two)
     leaves = jax.tree_util.tree_flatten(result_tree)[0]
     return all(leaves)
-- 
2.43.0


From 1b1478907610091cf93ac919bfd3de3fbfcd5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 12/15] fix: masking a view left NaN where a removed element
 held an infinity or NaN

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..ea16802 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From e5878e95ddac93661314ec1a4f46a65025863e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:55 +0000
Subject: [PATCH 13/15] fix: accumulators that are registered dataclasses
 turned into dicts when a state was flattened

---
 src/jax_act/core/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index e86ad4c..ccdefff 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -174,7 +174,7 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    state = {field.name: getattr(state, field.name) for field in fields(state)}
 
     aux_out = []
     values = []
-- 
2.43.0


From 24e456841afb4d423d7485cb41e0d0e27795cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:55 +0000
Subject: [PATCH 14/15] fix: iterate_act failed when the depression constant or
 the halting probabilities were not of the core dtype

---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index d5f9754..f03c617 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -153,6 +153,7 @@ class ACT_Controller(Immutable):
         # the stored away depression constant.
 
         halting_probabilities = self.depression_constant*halting_probabilities
+        halting_probabilities = halting_probabilities.astype(self.probabilities.dtype)
 
         # We need to know what batches are just now halting
         # to capture that information in the residuals, and
-- 
2.43.0


From 071a3d17e9fdb11487a599ec6e48973723c86b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:04 +0000
Subject: [PATCH 15/15] fix: attributes of an immutable object could be deleted

---
 src/jax_act/core/immutable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jax_act/core/immutable.py b/src/jax_act/core/immutable.py
index 1ed83d1..572ccd3 100644
--- a/src/jax_act/core/immutable.py
+++ b/src/jax_act/core/immutable.py
@@ -1,6 +1,10 @@
 class Immutable:
     def __init__(self):
         self._is_immutable = False
+    def __delattr__(self, key):
+        if getattr(self, '_is_immutable', False):
+            raise AttributeError("Cannot modify immutable object")
+        super().__delattr__(key)
     def make_immutable(self):
         self._is_immutable = True
     def __setattr__(self, key, value):
-- 
2.43.0

