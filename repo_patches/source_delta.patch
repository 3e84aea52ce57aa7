From b24806f65c920b14c724da9b5ec5e4a19302778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:18 +0000
Subject: [PATCH 01/66] fix: do not modify the caller's state tree in
 NonSequentialModel callables

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..874aba6 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # copy the containers, the caller's state must not be modified
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From 18118083bb28d37be795fdd9db2ed4dfa6baf33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:18 +0000
Subject: [PATCH 02/66] fix: count the best epoch in the optimizer state it is
 stored with

---
 parametricmatrixmodels/training.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..00f5c58 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -991,6 +991,13 @@ def _train(
             epoch,
         )
 
+        # the epoch is complete: increment the epoch counters before the best
+        # state is recorded, so that resuming from it does not repeat an epoch
+        adam_state = [
+            increment_epoch(int(trainable), state)
+            for trainable, state in zip(trainable_flags_flat, adam_state)
+        ]
+
         # patience handling
         # decrease patience if the validation loss has not improved
         improved = (
@@ -1043,10 +1050,6 @@ def _train(
             adam_state,
             is_leaf=lambda x: isinstance(x, OptimizerState),
         )
-        adam_state = [
-            increment_epoch(int(trainable), state)
-            for trainable, state in zip(trainable_flags_flat, adam_state)
-        ]
 
         # Return the updated state for the next epoch
         return (
-- 
2.43.0


From cc017f82d0e6eb1e14c8b7f4d0abf6ec796b53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:31 +0000
Subject: [PATCH 03/66] fix: call a custom validation loss with the training
 targets when no validation set is given

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..7ebdb08 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1175,8 +1175,11 @@ class Model(BaseModule):
         loss_fn_ = clean_loss_fn(loss_fn, Y_prov, Y_unc_prov)
 
         # repeat for validation
-        Y_val_prov = Y_val is not None
-        Y_val_unc_prov = Y_val_unc is not None
+        # without validation data, the training data is used for validation
+        Y_val_prov = Y_val is not None or (X_val is None and Y_prov)
+        Y_val_unc_prov = Y_val_unc is not None or (
+            X_val is None and Y_unc_prov
+        )
         val_loss_fn_ = (
             clean_loss_fn(val_loss_fn, Y_val_prov, Y_val_unc_prov)
             if val_loss_fn is not None
-- 
2.43.0


From 4f66677cc89483e703af930a276c002a4a38effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 04/66] fix: respect frozen modules inside nested models when
 training

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 7ebdb08..23212a0 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1256,10 +1256,13 @@ class Model(BaseModule):
         Return a PyTree with the same structure as the model's modules, where
         each leaf node is a boolean indicating whether the corresponding module
         is trainable (i.e. mod.trainable == True and mod.get_params() is not
-        None/())
+        None/()). For modules that are themselves models, the leaf is replaced
+        by the corresponding PyTree of the nested model.
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> PyTree[bool]:
+            if isinstance(mod, Model):
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From fca8b46f982d76c27de4e39203a0d42fd9fcc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:46 +0000
Subject: [PATCH 05/66] fix: resume training from the current parameters of the
 model

---
 parametricmatrixmodels/training.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 00f5c58..f8d63d1 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1669,6 +1669,13 @@ def train(
 
     if not resume or adam_state is None:
         adam_state_flat = jax.tree.map(init_fn, init_params_flat)
+    elif init_params is not None:
+        # continue the stored optimizer from the current parameters, which may
+        # have been changed since the optimizer state was stored
+        adam_state_flat = [
+            OptimizerState(p, a.m.astype(p.dtype), a.v.astype(p.dtype), a.epoch)
+            for p, a in zip(init_params_flat, adam_state_flat)
+        ]
 
     # make sure the validation batch size isn't larger than the validation set
     num_val_samples = jax.tree.leaves(X_val)[0].shape[0]
-- 
2.43.0


From 4eef83fd8291dfdb58fcfa4fe5ae69c9c74edd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:57 +0000
Subject: [PATCH 06/66] fix: save models whose modules are kept in tuples or
 ragged containers

---
 parametricmatrixmodels/model.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 23212a0..0bf442f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -45,6 +45,22 @@ from .typing import (
 )
 
 
+def _npz_items(data: Dict[str, Serializable]) -> Dict[str, Any]:
+    """
+    Wrap containers in zero-dimensional object arrays, so that they are stored
+    as they are rather than being converted to (ragged) arrays.
+    """
+
+    def wrap(value: Any) -> Any:
+        if isinstance(value, (list, tuple, dict)):
+            wrapped = onp.empty((), dtype=object)
+            wrapped[()] = value
+            return wrapped
+        return value
+
+    return {key: wrap(value) for key, value in data.items()}
+
+
 class Model(BaseModule):
     r"""
 
@@ -1763,7 +1779,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        onp.savez(file, **_npz_items(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1783,7 +1799,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **_npz_items(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
-- 
2.43.0


From 2da820d7d7f87c831e0e1d4f33aabdbd44a651f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:13 +0000
Subject: [PATCH 07/66] fix: do not append to the original model when adding to
 it with +

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 0bf442f..12f2154 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1536,7 +1536,9 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # the modules are shared, but not the containers that hold them, since
+        # appending to the new model must not change this one
+        new_model = self.__class__(jax.tree.map(lambda m: m, self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From 49d4fa3b648ff3aec97058219b88ab8dcbd5530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:13 +0000
Subject: [PATCH 08/66] fix: replace and remove modules of models that keep
 them in a tuple

---
 parametricmatrixmodels/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 12f2154..34783de 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1355,7 +1355,12 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                modules = list(self.modules)
+                modules[key] = module
+                self.modules = tuple(modules)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
@@ -1477,8 +1482,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = tuple(modules)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From acf0b0c0a5d9955fef6d295944ab194848dc1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:42 +0000
Subject: [PATCH 09/66] fix: do not reuse callables and shapes from before a
 model or nested model was edited or recompiled

---
 parametricmatrixmodels/model.py              | 27 +++++++++++++++++++-
 parametricmatrixmodels/nonsequentialmodel.py |  2 ++
 parametricmatrixmodels/sequentialmodel.py    | 25 +++++++++---------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 34783de..f5d43ca 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -208,8 +208,15 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._clear_callables()
+
+    def _clear_callables(self) -> None:
+        # forget everything derived from the modules as they were before.
+        # The token identifies this state of the model to models containing it
+        self._callables_token = object()
+        self._callables_tokens = None
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
@@ -222,6 +229,21 @@ class Model(BaseModule):
         self.autobatched_grad_callable_inputs = None
         self.autobatched_grad_callable_inputs_options = None
 
+    def _get_callables_tokens(self) -> List[Any]:
+        tokens = [self._callables_token]
+        for module in jax.tree.leaves(self.modules):
+            if isinstance(module, Model):
+                tokens += module._get_callables_tokens()
+        return tokens
+
+    def _refresh_callables(self) -> None:
+        # discard the callables if this model or a model nested in it has been
+        # modified or compiled since they were created
+        tokens = self._get_callables_tokens()
+        if self._callables_tokens != tokens:
+            self._clear_callables()
+            self._callables_tokens = self._get_callables_tokens()
+
     @abstractmethod
     def compile(
         self,
@@ -593,6 +615,7 @@ class Model(BaseModule):
 
         # assert that the model was compiled for this input shape
         self._verify_input(X)
+        self._refresh_callables()
 
         if self.callable is None:
             self.callable = jax.jit(self._get_callable(), static_argnums=(2,))
@@ -712,6 +735,7 @@ class Model(BaseModule):
                 f"\nReason: {unready_reason}"
             )
         self._verify_input(X)
+        self._refresh_callables()
 
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
@@ -890,6 +914,7 @@ class Model(BaseModule):
                 f"\nReason: {unready_reason}"
             )
         self._verify_input(X)
+        self._refresh_callables()
 
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 874aba6..f1340e0 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -429,6 +429,8 @@ class NonSequentialModel(Model):
             )
             return
 
+        self._clear_callables()
+
         # resolve the execution order
         self.execution_order = self.get_execution_order()
 
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..ec2812c 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,7 +129,9 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
+        self._clear_callables()
         self.input_shape = input_shape
+        self.output_shape = None
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
             rng, modrng = jax.random.split(rng)
@@ -173,20 +175,17 @@ class SequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
-            return self.output_shape
-        else:
-            shape = input_shape
-            for module in jax.tree.leaves(self.modules):
-                shape = module.get_output_shape(shape)
-
-            if len(shape) < 1:
-                raise ValueError(
-                    f"Model {self.name} output shape must have at least one"
-                    f" non-batch dimension, but got {shape}."
-                )
+        shape = input_shape
+        for module in jax.tree.leaves(self.modules):
+            shape = module.get_output_shape(shape)
+
+        if len(shape) < 1:
+            raise ValueError(
+                f"Model {self.name} output shape must have at least one"
+                f" non-batch dimension, but got {shape}."
+            )
 
-            return shape
+        return shape
 
     def _get_callable(
         self,
-- 
2.43.0


From e97b5619cc72a7424399234073941196bb899d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:29 +0000
Subject: [PATCH 10/66] fix: do not modify the base tree passed to
 extend_structure_from_strpaths

---
 parametricmatrixmodels/tree_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..1eb7d81 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -455,6 +455,17 @@ def extend_structure_from_strpaths(
         else:
             base_pytree = {}
 
+    # copy the containers so that the given base_pytree is not modified
+    def copy_containers(node: Any) -> Any:
+        if isinstance(node, dict):
+            return {k: copy_containers(v) for k, v in node.items()}
+        elif type(node) in (list, tuple):
+            return type(node)(copy_containers(v) for v in node)
+        else:
+            return node
+
+    base_pytree = copy_containers(base_pytree)
+
     # convert the base_pytree to a mutable structure if needed
     base_tuple = False
     if isinstance(base_pytree, tuple):
-- 
2.43.0


From e17d4462d64f930ac3e07c3c8b5bebbd74a93c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:23 +0000
Subject: [PATCH 11/66] fix: extend trees with tuples nested inside of tuples

---
 parametricmatrixmodels/tree_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 1eb7d81..cd61912 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -563,8 +563,9 @@ def extend_structure_from_strpaths(
                 current_node = current_node[key]
 
     # convert any list nodes that correspond to tuple nodes in the
-    # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    # original base_pytree back to tuples, innermost first since the items of a
+    # tuple can't be set anymore
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0


From fd74ad54495a4bb3256be15e264cdeb9b332fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:15 +0000
Subject: [PATCH 12/66] fix: do not confuse modules whose names begin like the
 reserved input and output names

---
 parametricmatrixmodels/graph_util.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..f8db94f 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,8 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        # remove all IO paths, also for 'input'
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
@@ -644,7 +640,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From 0f33ac7dc3abfef3e431a5c7eb0c656a10057c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:59 +0000
Subject: [PATCH 13/66] fix: Einsum compared index strings with arrays instead
 of their shapes for several given leading arrays

---
 parametricmatrixmodels/modules/einsum.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..7f60123 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,7 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [p.shape for p in jax.tree.leaves(self.params)]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From d102a8c52d63a9aac83a9f37bd4d0d25f8e994bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:14 +0000
Subject: [PATCH 14/66] fix: Einsum and MatMul without leading arrays could not
 be evaluated in a model, and ignored the parameters given to a frozen one

---
 parametricmatrixmodels/modules/einsum.py | 34 +++++-------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 7f60123..c47404e 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -470,9 +470,7 @@ class Einsum(BaseModule):
 
         # if leading_str is None then params must be None or empty
         # if it's not None, params may still be None (to be initialized later)
-        if leading_str is None and not (
-            self.params is None or self.params == ()
-        ):
+        if leading_str is None and len(jax.tree.leaves(self.params)) > 0:
             raise ValueError(
                 "If einsum_str does not specify leading arrays, then "
                 "params must be None or empty."
@@ -635,30 +633,9 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
+            # params are the leading arrays, trainable or fixed, if there are
             # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
+            arrays.extend(jax.tree.leaves(params))
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
@@ -812,7 +789,8 @@ class Einsum(BaseModule):
             self.real = hyperparams["real"]
 
     def get_params(self) -> Params:
-        return self.params
+        # no leading arrays means no parameters, which is an empty tuple
+        return self.params if self.params is not None else ()
 
     def set_params(self, params: Params) -> None:
-        self.params = params
+        self.params = params if len(jax.tree.leaves(params)) > 0 else None
-- 
2.43.0


From e198cd50d21bc16b1cd01c6dd3a5dc6deda5c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:36 +0000
Subject: [PATCH 15/66] fix: freezing an Einsum or MatMul before compilation,
 or unfreezing one without leading arrays, changed what it computes

---
 parametricmatrixmodels/modules/einsum.py | 8 +++++++-
 parametricmatrixmodels/modules/matmul.py | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index c47404e..227c24d 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -175,6 +175,9 @@ class Einsum(BaseModule):
         self.params = params
         self.dim_map = dim_map
         self.trainable = trainable
+        # whether missing leading arrays are created in compile(), independent
+        # of freezing or unfreezing the module later
+        self.create_params = trainable
         self.init_magnitude = init_magnitude
         self.real = real
         self.input_shape: DataShape | None = None
@@ -683,7 +686,7 @@ class Einsum(BaseModule):
 
         # initialize params if needed
         if len(leading_strs) > 0 and self.params is None:
-            if not self.trainable:
+            if not (self.create_params or self.trainable):
                 raise ValueError(
                     "params must be provided for fixed (non-trainable) "
                     "leading arrays."
@@ -770,6 +773,7 @@ class Einsum(BaseModule):
             **({"params": self.params} if not self.trainable else {}),
             "init_magnitude": self.init_magnitude,
             "real": self.real,
+            "create_params": self.create_params,
             "input_shape": self.input_shape,
         }
 
@@ -787,6 +791,8 @@ class Einsum(BaseModule):
             self.init_magnitude = hyperparams["init_magnitude"]
         if "real" in hyperparams:
             self.real = hyperparams["real"]
+        if "create_params" in hyperparams:
+            self.create_params = hyperparams["create_params"]
 
     def get_params(self) -> Params:
         # no leading arrays means no parameters, which is an empty tuple
diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..83ac65c 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -181,7 +181,7 @@ class MatMul(Einsum):
                 input_shape,
                 is_leaf=is_shape_leaf,
             )
-            if self.trainable or self.params is not None:
+            if self.create_params or self.params is not None:
                 shape_list = [None] + shape_list
         else:
             # ensure there are no duplicates in path_order
@@ -212,7 +212,7 @@ class MatMul(Einsum):
                 )
 
         # figure out the dimension of the parameter matrix if applicable
-        if self.trainable and self.params is None:
+        if self.create_params and self.params is None:
             # find the position of the parameter matrix in the order
             if None not in shape_list:
                 raise ValueError(
-- 
2.43.0


From b1efd0a7f15c9e0f67d36b686ac94649f25d4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:36 +0000
Subject: [PATCH 16/66] fix: MatMul lost its separator when its hyperparameters
 were set

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index 83ac65c..2f09d85 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 3caedae2573d924e44b35fcfd4e9f21d8359b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:36 +0000
Subject: [PATCH 17/66] fix: MatMul refused an output_shape with an inferred
 first dimension

---
 parametricmatrixmodels/modules/matmul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index 2f09d85..fa72d5e 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -261,7 +261,10 @@ class MatMul(Einsum):
                         )
                     param_shape = (shape_list[~1][1],)
                 else:
-                    if self.output_shape[0] != shape_list[0][0]:
+                    if (
+                        self.output_shape[0] is not None
+                        and self.output_shape[0] != shape_list[0][0]
+                    ):
                         raise ValueError(
                             "If output_shape is a tuple and the parameter"
                             " matrix is the last operand, then the first"
-- 
2.43.0


From cc422599e388289d5baf852684aa1ef172dc1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:46 +0000
Subject: [PATCH 18/66] fix: ConcatenateLeaves with a negative axis
 concatenated along the wrong axis

---
 parametricmatrixmodels/modules/concatenateleaves.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..9ef0ff5 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -77,6 +77,11 @@ class ConcatenateLeaves(BaseModule):
     def is_ready(self) -> bool:
         return True
 
+    def _batched_axis(self) -> int:
+        # the axis in the data, where the batch axis comes first; negative axes
+        # count from the end and are the same with or without the batch axis
+        return self.axis + 1 if self.axis >= 0 else self.axis
+
     def _get_callable(self) -> ModuleCallable:
 
         @jaxtyped(typechecker=beartype)
@@ -112,7 +117,7 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                return np.concatenate(leaves, axis=self._batched_axis()), state
 
         return concatenate_leaves_callable
 
@@ -165,7 +170,7 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                concatenated = np.concatenate(leaves, axis=self._batched_axis())
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From f1ce0ef3f2115496d39743117e7ea795e1546b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:46 +0000
Subject: [PATCH 19/66] fix: ConcatenateLeaves lost path_order and separator
 when saved

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 9ef0ff5..ee7bb56 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -181,6 +181,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From 51adbda97c720971787002ea3088ed9f3c484d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:05 +0000
Subject: [PATCH 20/66] fix: a saved LowRankAffineHermitianMatrix could not be
 loaded

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..430c61f 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
@@ -290,6 +291,8 @@ class LowRankAffineHermitianMatrix(BaseModule):
         super().set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
+        if not self.is_ready():
+            return None
         return (self.ls, self.us)
 
     def set_params(self, params: Params) -> None:
-- 
2.43.0


From 3b4f27e031e87a4cfd23e47f566e35146298827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:05 +0000
Subject: [PATCH 21/66] fix: Eigenvalues declared a wrong output shape for all
 eigenvalues of PyTree inputs

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From c1ed13e2067a031a8af8f3c235b8e33c35b461b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:22 +0000
Subject: [PATCH 22/66] fix: Reshape refused the documented None leaves in a
 PyTree of shapes

---
 parametricmatrixmodels/modules/reshape.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..36ac21f 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -162,7 +162,10 @@ class Reshape(BaseModule):
             selfshape = self.shape
 
         input_struct = jax.tree.structure(input_shape, is_leaf=is_shape_leaf)
-        shape_struct = jax.tree.structure(selfshape, is_leaf=is_shape_leaf)
+        # None stands for a leaf that is left unchanged
+        shape_struct = jax.tree.structure(
+            selfshape, is_leaf=lambda x: x is None or is_shape_leaf(x)
+        )
 
         assert input_struct == shape_struct, (
             f"Input shape structure {input_struct} does not match target shape"
@@ -174,7 +177,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From ba270068f5fc6fb3812e99e516a6b0df3617985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:22 +0000
Subject: [PATCH 23/66] fix: a trainable Constant that was frozen before
 compilation could not be compiled

---
 parametricmatrixmodels/modules/constant.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/constant.py b/parametricmatrixmodels/modules/constant.py
index d06cfe1..7a0fc5e 100644
--- a/parametricmatrixmodels/modules/constant.py
+++ b/parametricmatrixmodels/modules/constant.py
@@ -108,6 +108,9 @@ class Constant(BaseModule):
 
         self.constant = constant
         self.trainable = trainable
+        # whether a missing constant is created in compile(), independent of
+        # freezing the module later
+        self.create_constant = trainable
         self.shape = shape
         self.init_magnitude = init_magnitude
         self.real = real
@@ -153,14 +156,15 @@ class Constant(BaseModule):
         return const_callable
 
     def compile(self, rng: Any, input_shape: DataShape) -> None:
-        if not self.trainable and not self.is_ready():
+        create = self.create_constant or self.trainable
+        if not create and not self.is_ready():
             raise ValueError(
                 "Constant module is not trainable and 'constant' "
                 "is not set. Please set 'constant' with "
                 "'set_hyperparameters' before compiling."
             )
 
-        if self.trainable and not self.is_ready():
+        if create and not self.is_ready():
             if self.real is None:
                 raise ValueError(
                     "'real' must be set if 'constant' is None "
@@ -231,6 +235,7 @@ class Constant(BaseModule):
             "shape": self.shape,
             "init_magnitude": self.init_magnitude,
             "real": self.real,
+            "create_constant": self.create_constant,
             "_name": self._name,
         }
 
-- 
2.43.0


From 154f58edfccb69947656b674aa64cffa5c016b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:01 +0000
Subject: [PATCH 24/66] fix: LinearNN, AffineEigenvaluePMM and
 AffineObservablePMM forgot that they were frozen before compilation

---
 parametricmatrixmodels/model.py               | 28 +++++++++----------
 .../modules/affineeigenvaluepmm.py            |  4 +++
 .../modules/affineobservablepmm.py            |  4 +++
 parametricmatrixmodels/modules/linearnn.py    |  4 +++
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index f5d43ca..4403c5d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -101,12 +101,15 @@ class Model(BaseModule):
     # override the trainable property
     @property
     def trainable(self) -> bool:
-        return any(
-            module.trainable for module in jax.tree.leaves(self.modules)
-        )
+        modules = jax.tree.leaves(self.modules)
+        if not modules:
+            # modules that are only created in compile() will get this mark
+            return BaseModule.trainable.fget(self)
+        return any(module.trainable for module in modules)
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        BaseModule.trainable.fset(self, value)
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
@@ -1778,20 +1781,17 @@ class Model(BaseModule):
                 data["optimizer_struct"], optimizer_state
             )
 
-        # remove rng from data["self_serialized"] since it's already
-        # deserialized above
-        data["self_serialized"].pop("rng", None)
-        # remove _optimizer_state from data["self_serialized"] since it's
-        # already deserialized above
-        data["self_serialized"].pop("_optimizer_state", None)
-        # remove "trainable" from data["self_serialized"] since it's not needed
-        # and will cause issues overwriting the module's own trainable
-        # attribute
-        data["self_serialized"].pop("trainable", None)
+        # remove rng and _optimizer_state since they are already deserialized
+        # above, and "trainable" (unless there are no modules yet) since it's
+        # not needed and will cause issues overwriting the module's own
+        # trainable attribute
+        skip = {"rng", "_optimizer_state"}
+        if jax.tree.leaves(self.modules):
+            skip.add("trainable")
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
-            data["self_serialized"],
+            {k: v for k, v in data["self_serialized"].items() if k not in skip},
             strict_package_version=strict_package_version,
         )
 
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..7947680 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -164,6 +164,8 @@ class AffineEigenvaluePMM(SequentialModel):
             )
 
         if self.input_shape != input_shape or self.modules is None:
+            # a mark set before now holds for the modules created here
+            frozen = not self.trainable
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
                 matrix_size=self.matrix_size,
@@ -181,6 +183,8 @@ class AffineEigenvaluePMM(SequentialModel):
 
             # Set the modules in the SequentialModel
             self.modules = (affine_module, eigen_module)
+            if frozen:
+                self.freeze()
 
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..4977ac4 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -251,6 +251,8 @@ class AffineObservablePMM(SequentialModel):
 
         # don't override existing modules if input shape hasn't changed
         if input_shape != self.input_shape or self.modules is None:
+            # a mark set before now holds for the modules created here
+            frozen = not self.trainable
 
             self.modules = [
                 AffineHermitianMatrix(
@@ -297,6 +299,8 @@ class AffineObservablePMM(SequentialModel):
                 )
 
             self.modules = tuple(self.modules)
+            if frozen:
+                self.freeze()
 
         super().compile(rng, input_shape, verbose=verbose)
 
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..935675b 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -89,6 +89,8 @@ class LinearNN(SequentialModel):
             )
 
         if input_shape != self.input_shape or self.modules is None:
+            # a mark set before now holds for the modules created here
+            frozen = not self.trainable
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
                 Flatten(),
@@ -114,6 +116,8 @@ class LinearNN(SequentialModel):
                 modules.append(self.activation)
 
             self.modules = modules
+            if frozen:
+                self.freeze()
 
         super().compile(rng, input_shape, verbose=verbose)
 
-- 
2.43.0


From 67b48d719d60c821aae70806e8074c13e0a1028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:25 +0000
Subject: [PATCH 25/66] fix: AffineObservablePMM ignored the bias it was given

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 4977ac4..86847b6 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -291,6 +291,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From 4c6387e51a8d32ac1f887134ab871300701f11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:25 +0000
Subject: [PATCH 26/66] fix: AffineEigenvaluePMM and AffineObservablePMM lost
 the matrices they were given when saved before compilation

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 2 ++
 parametricmatrixmodels/modules/affineobservablepmm.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 7947680..8c7eb31 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -207,6 +207,7 @@ class AffineEigenvaluePMM(SequentialModel):
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
+            "Ms": self.Ms,
             **super().get_hyperparameters(),
         }
 
@@ -217,4 +218,5 @@ class AffineEigenvaluePMM(SequentialModel):
         self.smoothing = hyperparams["smoothing"]
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
         super().set_hyperparameters(hyperparams)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 86847b6..b1014b6 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -333,6 +333,9 @@ class AffineObservablePMM(SequentialModel):
             "centered": self.centered,
             "bias_term": self.bias_term,
             "use_expectation_values": self.use_expectation_values,
+            "Ms": self.Ms,
+            "Ds": self.Ds,
+            "b": self.b,
             **super().get_hyperparameters(),
         }
 
@@ -348,4 +351,7 @@ class AffineObservablePMM(SequentialModel):
         self.output_size = hyperparams["output_size"]
         self.centered = hyperparams["centered"]
         self.use_expectation_values = hyperparams["use_expectation_values"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
+        self.Ds = hyperparams.get("Ds", self.Ds)
+        self.b = hyperparams.get("b", self.b)
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 0a3e59906b216e5a203963e217c73b12bc1951f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:56 +0000
Subject: [PATCH 27/66] fix: models that were not compiled could not be saved
 and loaded

---
 parametricmatrixmodels/model.py              | 9 +++++----
 parametricmatrixmodels/nonsequentialmodel.py | 5 -----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4403c5d..c97dab2 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1782,10 +1782,11 @@ class Model(BaseModule):
             )
 
         # remove rng and _optimizer_state since they are already deserialized
-        # above, and "trainable" (unless there are no modules yet) since it's
-        # not needed and will cause issues overwriting the module's own
-        # trainable attribute
-        skip = {"rng", "_optimizer_state"}
+        # above, params and state since the modules have restored their own
+        # (None if not compiled), and "trainable" (unless there are no modules
+        # yet) since it's not needed and will cause issues overwriting the
+        # module's own trainable attribute
+        skip = {"rng", "_optimizer_state", "params", "state"}
         if jax.tree.leaves(self.modules):
             skip.add("trainable")
 
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index f1340e0..334ad9f 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -940,11 +940,6 @@ class NonSequentialModel(Model):
             structure as the modules PyTree. Modules that are not in the
             execution order will have state None.
         """
-        if not self.is_ready():
-            raise RuntimeError(
-                f"{self.name} is not ready. Call compile() first."
-            )
-
         # if the model is ready, then all the modules in the execution order
         # are ready, and otherwise we can ignore them
 
-- 
2.43.0


From 5c5b260ada72dc539fe48e9d21b8c0bfa0dfa576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 28/66] fix: all modules of a NonSequentialModel were given the
 same random key

---
 parametricmatrixmodels/nonsequentialmodel.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 334ad9f..f3296d0 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -804,6 +804,7 @@ class NonSequentialModel(Model):
             )
 
         self.modules = make_mutable(self.modules)
+        modules_structure = jax.tree.structure(self.modules)
 
         # get the callables for each module in the execution order and put them
         # in a PyTree with the same structure
@@ -852,6 +853,10 @@ class NonSequentialModel(Model):
             new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
+            # every module gets its own random key
+            rngs = jax.random.split(rng, len(jax.tree.leaves(self.modules)))
+            rngs = jax.tree.unflatten(modules_structure, rngs)
+
             for mod_path, module_callable, req_in_paths in zip(
                 self.execution_order,
                 module_callables,
@@ -894,7 +899,13 @@ class NonSequentialModel(Model):
                     in_data,
                     training,
                     module_state,
-                    rng,
+                    getitem_by_strpath(
+                        rngs,
+                        mod_path,
+                        separator=self.separator,
+                        allow_early_return=False,
+                        return_remainder=False,
+                    ),
                 )
 
                 # store the output
-- 
2.43.0


From 6a6a3283b865bb03d2d92176bdea0bee053d3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 29/66] fix: a model saved to a Path without suffix could not
 be loaded from the same Path

---
 parametricmatrixmodels/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c97dab2..cea663b 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1811,7 +1811,8 @@ class Model(BaseModule):
         # savez
         data: Dict[str, Serializable] = self.serialize()
 
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
         onp.savez(file, **_npz_items(data))
 
@@ -1829,7 +1830,8 @@ class Model(BaseModule):
         # savez_compressed
         data: Dict[str, Serializable] = self.serialize()
 
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
@@ -1851,7 +1853,8 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
         data = np.load(file, allow_pickle=True)
-- 
2.43.0


From 0e56d9820b03f387e42331d606626adeecdb5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 30/66] fix: OneHot mixed up the values of features with
 several components

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..ce8e2a5 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # np.unique sorts the unique values lexicographically, which ensures
+        # consistent ordering across runs and platforms
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From b58af02a96162def3672cc872ba92d083c2866e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 31/66] fix: OneHot refused PyTrees whose leaves have different
 numbers of values

---
 parametricmatrixmodels/preprocessing/onehot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index ce8e2a5..75758e8 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -62,7 +62,7 @@ class OneHot(Scaler):
         self,
         X: PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"],
         y: Any | None = None,
-    ) -> PyTree[Inexact[Array, "n num_unique"], " Data"]:
+    ) -> PyTree[Inexact[Array, "n ?num_unique"], " Data"]:
         """
         Encodes the input data as one-hot based on the unique values found
         during fitting. Values not found during fitting are encoded as all
@@ -97,7 +97,7 @@ class OneHot(Scaler):
 
     def inverse_transform(
         self,
-        X_encoded: PyTree[Inexact[Array, "n num_unique"], " Data"],
+        X_encoded: PyTree[Inexact[Array, "n ?num_unique"], " Data"],
         y_encoded: Any | None = None,
     ) -> PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"]:
         """
-- 
2.43.0


From 3298b1b639bd6c19547c13773b2d56a4cf3283d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 32/66] fix: scalers of lists or tuples could not be saved and
 loaded, nor from a Path without suffix

---
 .../preprocessing/scaler.py                   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..a065875 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -10,9 +10,18 @@ import numpy as onp
 from beartype import beartype
 from jaxtyping import jaxtyped
 
+from ..model import _npz_items
 from ..typing import Any, DataFixed, Dict, Tuple
 
 
+def _npz_path(filepath: IO | Path | str) -> IO | str:
+    if isinstance(filepath, (str, Path)):
+        filepath = str(filepath)
+        if not filepath.endswith(".npz"):
+            filepath += ".npz"
+    return filepath
+
+
 @jaxtyped(typechecker=beartype)
 class Scaler(ABC):
     """Abstract base class for data scalers."""
@@ -153,9 +162,7 @@ class Scaler(ABC):
             Path to the file where the scaler will be saved.
         """
         data = self.serialize()
-        if isinstance(filepath, str) and not filepath.endswith(".npz"):
-            filepath += ".npz"
-        onp.savez(filepath, **data)
+        onp.savez(_npz_path(filepath), **_npz_items(data))
 
     @final
     def save_compressed(self, filepath: IO | Path | str) -> None:
@@ -168,9 +175,7 @@ class Scaler(ABC):
             Path to the file where the scaler will be saved.
         """
         data = self.serialize()
-        if isinstance(filepath, str) and not filepath.endswith(".npz"):
-            filepath += ".npz"
-        onp.savez_compressed(filepath, **data)
+        onp.savez_compressed(_npz_path(filepath), **_npz_items(data))
 
     @classmethod
     @final
@@ -187,9 +192,7 @@ class Scaler(ABC):
         Scaler
             Loaded scaler.
         """
-        if isinstance(filepath, str) and not filepath.endswith(".npz"):
-            filepath += ".npz"
-        data = onp.load(filepath, allow_pickle=True)
+        data = onp.load(_npz_path(filepath), allow_pickle=True)
 
         # convert all arrays to jax.numpy arrays, including tree leaves
         data_dict = {
-- 
2.43.0


From 95f961f12d3a109cd7a12f6ff110a29ddc1a6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 33/66] fix: MinMaxScaler and RobustScaler refused the
 documented None entries in PyTrees of ranges

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 6 +++---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..c562ed2 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -30,19 +30,19 @@ class MinMaxScaler(Scaler):
                 | float
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"],
+                | PyTree[None | float | int],
                 float
                 | None
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"],
+                | PyTree[None | float | int],
             ]
             | List[
                 float
                 | None
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"]
+                | PyTree[None | float | int]
             ]
         ) = (0.0, 1.0),
     ):
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..5263e90 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -46,19 +46,19 @@ class RobustScaler(Scaler):
                 | float
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"],
+                | PyTree[None | float | int],
                 float
                 | None
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"],
+                | PyTree[None | float | int],
             ]
             | List[
                 float
                 | None
                 | int
                 | BatchlessRealDataFixed
-                | PyTree[None | float | int, "RealDataFixed"]
+                | PyTree[None | float | int]
             ]
         ) = (0.25, 0.75),
         with_centering: bool | PyTree[bool, "RealDataFixed"] = True,
-- 
2.43.0


From a571f5cb73e37c353277a541be9c2ef52599b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 34/66] fix: MinMaxScaler refused a bound of None for PyTrees

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index c562ed2..3438049 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -109,11 +109,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
@@ -157,11 +157,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'inverse_transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
-- 
2.43.0


From c53da265cae0f08643c3c3876f1e72bb221067be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 35/66] fix: MinMaxScaler and RobustScaler with a range given
 as an array could not be deserialized

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 2 ++
 parametricmatrixmodels/preprocessing/robust_scaler.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 3438049..9863d5d 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -61,6 +61,8 @@ class MinMaxScaler(Scaler):
                 both will be treated as None for that feature.
                 Default is (0.0, 1.0).
         """
+        if isinstance(feature_range, jax.Array):
+            feature_range = feature_range.tolist()
         self.min_val, self.max_val = feature_range
         self.data_min_: BatchlessRealDataFixed | None = None
         self.data_max_: BatchlessRealDataFixed | None = None
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 5263e90..3230214 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -100,6 +100,8 @@ class RobustScaler(Scaler):
                 Minimum scale value to avoid division by zero when scaling.
                 Default is 1e-12.
         """
+        if isinstance(quantile_range, jax.Array):
+            quantile_range = quantile_range.tolist()
         self.q_low, self.q_high = quantile_range
         self.with_centering = with_centering
         self.with_scaling = with_scaling
-- 
2.43.0


From ab9afd98d21c9cb0d0e40f8d7d6909276993fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 36/66] fix: RobustScaler could not transform data with more
 than one feature

---
 .../preprocessing/robust_scaler.py                | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 3230214..6f237f0 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -192,11 +192,8 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'transform'."
             )
         return jax.tree.map(
-            lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
-            ),
+            lambda x, median, scale: (x - median)
+            / np.where(np.abs(scale) > self.eps, scale, 1.0),
             X,
             self.median_,
             self.scale_,
@@ -226,11 +223,9 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'inverse_transform'."
             )
         return jax.tree.map(
-            lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
-            ),
+            lambda x_scaled, median, scale: x_scaled
+            * np.where(np.abs(scale) > self.eps, scale, 1.0)
+            + median,
             X_scaled,
             self.median_,
             self.scale_,
-- 
2.43.0


From 6fa91150594094b83c651a4bfdb1ab620f0c63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 37/66] fix: RobustScaler refused PyTrees unless every option
 was given as a PyTree

---
 .../preprocessing/robust_scaler.py            | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 6f237f0..40d1d01 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -127,6 +127,18 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+
+        # single options apply to all leaves of the data
+        def broadcast(option: Any) -> Any:
+            if option is None or np.isscalar(option):
+                return jax.tree.map(lambda _: option, X)
+            return option
+
+        q_low = broadcast(self.q_low)
+        q_high = broadcast(self.q_high)
+        with_centering = broadcast(self.with_centering)
+        with_scaling = broadcast(self.with_scaling)
+
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -134,8 +146,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            q_low,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -145,8 +157,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            q_high,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -157,14 +169,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            with_centering,
         )
 
         return self
-- 
2.43.0


From 42f653ffa36b6ec3d99cf40340dd6cd666445bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 38/66] fix: RobustScaler with an array of quantiles computed
 all of them for every feature

---
 .../preprocessing/robust_scaler.py                  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 40d1d01..b704526 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -15,6 +15,15 @@ from ..typing import (
 from .scaler import Scaler
 
 
+def _quantile(x: Array, q: Any) -> Array:
+    # the quantile of every feature, q is a number or one for each feature
+    if np.ndim(q) == 0:
+        return np.quantile(x, q, axis=0)
+    return jax.vmap(np.quantile, in_axes=(1, 0))(
+        x.reshape(x.shape[0], -1), np.broadcast_to(q, x.shape[1:]).ravel()
+    ).reshape(x.shape[1:])
+
+
 class RobustScaler(Scaler):
     r"""
     Scale features using statistics that are robust to outliers.
@@ -141,7 +150,7 @@ class RobustScaler(Scaler):
 
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                _quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -152,7 +161,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                _quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From a1acd0761d7799d857f0a043bc194c230fd40347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:53 +0000
Subject: [PATCH 39/66] fix: StandardScaler and MinMaxScaler turned constant
 features into NaN

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py   | 5 ++++-
 parametricmatrixmodels/preprocessing/standard_scaler.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9863d5d..a3b1fba 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -123,7 +123,10 @@ class MinMaxScaler(Scaler):
         return jax.tree.map(
             lambda x, data_min, data_max, min_v, max_v: (
                 (
-                    (x - data_min) / (data_max - data_min) * (max_v - min_v)
+                    # constant features are mapped to the lower bound
+                    (x - data_min)
+                    / np.where(data_max == data_min, 1.0, data_max - data_min)
+                    * (max_v - min_v)
                     + min_v
                 )
                 if (min_v is not None and max_v is not None)
diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..f978462 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,7 +42,9 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        self.scale_ = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        scale = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        # constant features are only centered
+        self.scale_ = jax.tree.map(lambda s: np.where(s == 0, 1.0, s), scale)
 
         return self
 
-- 
2.43.0


From 92ae508a648772378842cb3d1530c9dab9dac8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 40/66] fix: grad_input refused PyTrees whose leaves have
 different sizes

---
 parametricmatrixmodels/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index cea663b..1029c93 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -780,11 +780,11 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-            ) -> PyTree[Inexact[Array, "..."]]:  # no batch dim
+            ) -> Tuple[PyTree[Inexact[Array, "..."]], ModelState]:
                 y, new_state = raw_callable(
                     params,
                     jax.tree.map(lambda u: u[None, ...], x),
-- 
2.43.0


From 930804c7f603cd37ca2643b232a1ceb414fc2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 41/66] fix: intervals after a second calibration used the
 quantiles of the first one

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..3ec2190 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -809,6 +809,9 @@ class ConformalizedModel(object):
             Y_cal if Y_cal is not None else X_cal, Y_cal_pred
         )
 
+        # the quantiles of earlier calibrations are no longer valid
+        self.qhats = {}
+
         # s = |Y - Y_pred| / u
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
-- 
2.43.0


From fe1d8879089c805140165b6846291026771f15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 42/66] fix: a conformalized model saved without suffix could
 not be loaded by the same name

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 3ec2190..0b03ca3 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1709,7 +1709,8 @@ class ConformalizedModel(object):
         """
 
         data: Dict[str, Serializable] = self.serialize()
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
 
         np.savez(file, **data)
@@ -1725,7 +1726,8 @@ class ConformalizedModel(object):
         """
 
         data: Dict[str, Serializable] = self.serialize()
-        if isinstance(file, str):
+        if isinstance(file, (str, Path)):
+            file = str(file)
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax numpy doesn't have savez_compressed, so we use numpy
@@ -1752,6 +1754,9 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, (str, Path)):
+            file = str(file)
+            file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
-- 
2.43.0


From 9f589157a49110667b38d187cd4f54ce7c2e6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 43/66] fix: the name of a loaded conformalized model was an
 array

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 0b03ca3..9134aea 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1778,6 +1778,9 @@ class ConformalizedModel(object):
                 "conformalization_state"
             ].item()
 
+        if isinstance(data["conformal_name"], (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
+
         return cls.deserialize(
             data, strict_package_version=strict_package_version
         )
-- 
2.43.0


From 115160b40dc0022f2a3770ac0d30af7511cdbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 44/66] fix: stratified bias corrections only worked for
 outputs with a single component

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 9134aea..6f77b42 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From 594bcee36f2e851e58a7ce91d44d702a6318e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 45/66] fix: the distance sensitivity was added along the wrong
 axes for outputs with several dimensions

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 6f77b42..3995b87 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1521,7 +1521,10 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                u = jax.tree.map(
+                    lambda x: x + u_dist.reshape((-1,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From 7e48d5eb9536302e967d3789a8e779a6164e8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 46/66] fix: conformal calibration refused categorical features
 with several components

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 3995b87..d25026e 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -646,7 +646,7 @@ class ConformalizedModel(object):
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    return np.full((1,), 2.0, dtype=feature.dtype)
                 return np.ptp(feature, axis=0)
 
             self._iqr_X_train = jax.tree.map(
-- 
2.43.0


From 442eb6a7e98a718effba9d5060e655b5b45ce799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:40 +0000
Subject: [PATCH 47/66] fix: conformal intervals were NaN if all features are
 categorical

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index d25026e..142bfdf 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -962,7 +962,7 @@ class ConformalizedModel(object):
                 df_dx,
                 is_leaf=tree_util.is_shape_leaf,
             ),
-            1.0 / self._num_input_sensitivity,
+            1.0 / max(self._num_input_sensitivity, 1),
         )
 
         if X_unc is not None:
@@ -988,7 +988,7 @@ class ConformalizedModel(object):
                     df_dx,
                     is_leaf=tree_util.is_shape_leaf,
                 ),
-                1.0 / self._num_input_sensitivity,
+                1.0 / max(self._num_input_sensitivity, 1),
             )
 
             dy_input = tree_util.add(dy_input, dy_input_unc)
-- 
2.43.0


From a6c148290dbbf54e14bb37bf864f4108430a4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:40 +0000
Subject: [PATCH 48/66] fix: input uncertainties were not matched with their
 samples in the conformal heuristic

---
 .../conformal/conformalizedmodel.py                 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 142bfdf..fc90769 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -981,9 +981,16 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
-                        u_dtype, df, X_unc
-                    ),
+                    # the uncertainties differ from sample to sample
+                    lambda _, df: jax.vmap(
+                        lambda df_, x_unc: (
+                            accumulate_sum_sq_over_output_leaves(
+                                u_dtype,
+                                jax.tree.map(lambda d: d[None], df_),
+                                x_unc,
+                            )[0]
+                        )
+                    )(df, X_unc),
                     self.model.output_shape,
                     df_dx,
                     is_leaf=tree_util.is_shape_leaf,
-- 
2.43.0


From 1c6a7c909eeae0e5f65c0ac60d529a2865b819bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:41 +0000
Subject: [PATCH 49/66] fix: conformal calibration with target uncertainties
 failed and sorted by the weights

---
 .../conformal/conformalizedmodel.py               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index fc90769..c8320b6 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1813,10 +1813,17 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    def single(d, w):
+        idxs = np.argsort(d)
+        cum_weights = np.cumsum(w[idxs])
+        return np.interp(quantiles * cum_weights[~0], cum_weights, d[idxs])
+
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    w_qs = jax.vmap(single, in_axes=1, out_axes=-1)(
+        data.reshape(data.shape[0], -1), weights.reshape(data.shape[0], -1)
+    )
+    return w_qs.reshape(np.shape(quantiles) + data.shape[1:])
 
 
 def mad(
-- 
2.43.0


From 2677e222afc187d01e056687a49cc8781588cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:41 +0000
Subject: [PATCH 50/66] fix: conformal calibration with training data but
 without distance sensitivity failed

---
 .../conformal/conformalizedmodel.py           | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index c8320b6..7225722 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -660,6 +660,9 @@ class ConformalizedModel(object):
                 compute_range, self._training_data, self._continuous_features
             )
 
+        if self._training_data is not None and tree_util.any(
+            self._distance_sensitivity
+        ):
             # since we want to be able to use KDTree for fast kNN lookup, we
             # need to convert the non-continuous features to one-hot encoding.
             # that way the L1 distance between these features is the same as
@@ -744,17 +747,18 @@ class ConformalizedModel(object):
                     S_input_cal, weights
                 )
 
-            S_dist_cal = self.distance_sensitivity(
-                X_cal,
-                dtype=dtype,
-                normalize=False,
-                verbose=verbose,
-                extra_info="calibration",
-                newline=False,
-            )
-            # no weights for distance sensitivity since it is independent of
-            # the labels
-            self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
+            if tree_util.any(self._distance_sensitivity):
+                S_dist_cal = self.distance_sensitivity(
+                    X_cal,
+                    dtype=dtype,
+                    normalize=False,
+                    verbose=verbose,
+                    extra_info="calibration",
+                    newline=False,
+                )
+                # no weights for distance sensitivity since it is independent
+                # of the labels
+                self._norm_S_dist = pytree_robust_normalization(S_dist_cal)
 
         # compute conformity scores
         u_cal = self.uncertainty_heuristic(
@@ -1699,7 +1703,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From 4cb0129ae5ff220f7d069641059e859ad6cc580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:42 +0000
Subject: [PATCH 51/66] fix: conformal calibration failed for training data
 with a constant feature

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 7225722..98a5b69 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -647,7 +647,9 @@ class ConformalizedModel(object):
                 # of 2 (L1 distance)
                 if not is_continuous:
                     return np.full((1,), 2.0, dtype=feature.dtype)
-                return np.ptp(feature, axis=0)
+                feature_range = np.ptp(feature, axis=0)
+                # constant features are not rescaled
+                return np.where(feature_range == 0, 1.0, feature_range)
 
             self._iqr_X_train = jax.tree.map(
                 compute_iqr,
-- 
2.43.0


From 66d5adc5f1c65acb5aad5550ed899d55b0ee8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:28 +0000
Subject: [PATCH 52/66] fix: LinearNN lost its activation when saved before
 compilation

---
 parametricmatrixmodels/modules/linearnn.py | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 935675b..905c369 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 import jax
 
 from ..sequentialmodel import SequentialModel
@@ -181,6 +183,17 @@ class LinearNN(SequentialModel):
         self.real = hyperparams.get("real", self.real)
         super().set_hyperparameters(hyperparams)
 
+    def serialize(self) -> Dict[str, Serializable]:
+        data = super().serialize()
+        # once compiled the activation is one of the modules
+        if self.activation is not None and not self.modules:
+            data["activation"] = {
+                "typename": self.activation.__class__.__name__,
+                "module": self.activation.__module__,
+                "serialized": self.activation.serialize(),
+            }
+        return data
+
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -203,7 +216,18 @@ class LinearNN(SequentialModel):
         )
         # just need to read .modules to make sure .activation matches the
         # modules
-        if self.modules is not None:
+        if not self.modules and "activation" in data:
+            activation = data["activation"]
+            if not isinstance(activation, dict):
+                activation = activation.item()
+            self.activation = getattr(
+                sys.modules[activation["module"]], activation["typename"]
+            )()
+            self.activation.deserialize(
+                activation["serialized"],
+                strict_package_version=strict_package_version,
+            )
+        elif self.modules:
             # figure out if modules contains an activation function
             # by checking the number of modules
             if len(self.modules) == 2:
-- 
2.43.0


From 78238da68b9d3365bbf41b16454524324a4f824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 53/66] fix: scalar_add, scalar_mul and mean refused PyTrees
 whose leaves have different shapes

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index cd61912..dadf30d 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -590,7 +590,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -835,9 +835,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -859,9 +859,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From ec0a83e0a8cb0f0f867325e550f850831f08ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 54/66] fix: MinMaxScaler did not invert its scaling of
 constant features

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index a3b1fba..ebaf4ff 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -176,7 +176,7 @@ class MinMaxScaler(Scaler):
                 (
                     (x_scaled - min_v)
                     / (max_v - min_v)
-                    * (data_max - data_min)
+                    * np.where(data_max == data_min, 1.0, data_max - data_min)
                     + data_min
                 )
                 if (min_v is not None and max_v is not None)
-- 
2.43.0


From 0723c77fac63fcb9f44c13c3452a981cb17eacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:34 +0000
Subject: [PATCH 55/66] fix: RobustScaler refused None quantiles in a PyTree
 together with PyTrees of options

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index b704526..cca1599 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -70,8 +70,8 @@ class RobustScaler(Scaler):
                 | PyTree[None | float | int]
             ]
         ) = (0.25, 0.75),
-        with_centering: bool | PyTree[bool, "RealDataFixed"] = True,
-        with_scaling: bool | PyTree[bool, "RealDataFixed"] = True,
+        with_centering: bool | PyTree[bool] = True,
+        with_scaling: bool | PyTree[bool] = True,
         eps: float = 1e-12,
     ):
         """
-- 
2.43.0


From 13a25efd699f3449309a541ccca5eb433df12159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:23 +0000
Subject: [PATCH 56/66] fix: signals did not end verbose training, whose
 handlers stayed installed after it

---
 parametricmatrixmodels/training.py | 130 +++++++++++++++++++----------
 1 file changed, 87 insertions(+), 43 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index f8d63d1..3439cde 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1,6 +1,8 @@
 import random
 import signal
+import socket
 import warnings
+from contextlib import nullcontext
 from dataclasses import dataclass
 from functools import partial
 
@@ -94,12 +96,49 @@ TrainingState: TypeAlias = Tuple[
 
 
 class GracefulKiller:
-    kill_now = False
-    active = True
+    """
+    Context manager that takes note of SIGINT and SIGTERM instead of letting
+    them end the process. The previous signal handling is restored on exit.
+    """
+
+    signals = (signal.SIGINT, signal.SIGTERM)
 
     def __init__(self) -> None:
-        signal.signal(signal.SIGINT, self.exit_gracefully)
-        signal.signal(signal.SIGTERM, self.exit_gracefully)
+        self.kill_now = False
+        self.noticed = False
+        self.active = True
+        self.handlers = {}
+
+    def __enter__(self) -> "GracefulKiller":
+        # python only calls signal handlers in the main thread, which may be
+        # busy in the compiled training loop, the wakeup file descriptor on
+        # the other hand is written to as soon as a signal arrives
+        self.reader, self.writer = socket.socketpair()
+        self.reader.setblocking(False)
+        self.writer.setblocking(False)
+        self.wakeup_fd = signal.set_wakeup_fd(
+            self.writer.fileno(), warn_on_full_buffer=False
+        )
+        for s in self.signals:
+            self.handlers[s] = signal.signal(s, self.exit_gracefully)
+        return self
+
+    def __exit__(self, *args) -> None:
+        for s, handler in self.handlers.items():
+            if handler is not None:
+                signal.signal(s, handler)
+        signal.set_wakeup_fd(self.wakeup_fd)
+        self.reader.close()
+        self.writer.close()
+
+    def received(self) -> bool:
+        try:
+            while data := self.reader.recv(64):
+                if any(s in self.signals for s in data):
+                    self.noticed = True
+        except BlockingIOError:
+            pass
+        return self.kill_now or self.noticed
 
     def exit_gracefully(self, *args) -> None:
         # if a second signal is received, exit immediately
@@ -391,6 +430,7 @@ def _train_step(
         "callback",
         "unroll",
         "verbose",
+        "killer",
     ),
 )
 @jaxtyped(typechecker=beartype)
@@ -455,6 +495,7 @@ def _train(
         int | None
     ),  # static [default should be None, for unrolling the batch loop]
     verbose: bool,  # static [default should be True]
+    killer: GracefulKiller | None,  # static [required if verbose]
 ):
     """
     Main training loop for the Adam optimizer. All non-jittable setup should be
@@ -509,7 +550,6 @@ def _train(
     total_val_batches = num_val_batches + (1 if val_batch_remainder > 0 else 0)
 
     if verbose:
-        killer = GracefulKiller()
         pb = ProgressBar(
             num_batches,
             length=20,
@@ -806,7 +846,7 @@ def _train(
         )
 
     def epoch_cond_callback(training_state: TrainingState) -> bool:
-        kill_now = killer.kill_now
+        kill_now = killer.received()
 
         return not kill_now
 
@@ -1691,43 +1731,47 @@ def train(
         val_batch_size = num_val_samples
 
     # train
-    (
-        final_adam_state_flat,
-        final_model_state,
-        final_model_rng,
-        final_epoch,
-        best_val_loss,
-        best_epoch,
-    ) = _train(
-        batch_rng,
-        update_fn,
-        increment_epoch,
-        adam_state_flat,
-        tuple(trainable_flags_flat),
-        get_params,
-        update_params_direct,
-        init_state,  # initial model state
-        init_rng,  # initial model rng
-        X,
-        Y,
-        Y_unc,
-        X_val,
-        Y_val,
-        Y_val_unc,
-        loss_fn,
-        val_loss_fn,
-        grad_loss_fn,
-        batch_size=batch_size,
-        val_batch_size=val_batch_size,
-        start_epoch=0,  # always start from 0
-        epochs=epochs,
-        target_loss=target_loss,
-        early_stopping_patience=early_stopping_patience,
-        early_stopping_min_delta=early_stopping_min_delta,
-        callback=callback,
-        unroll=unroll,
-        verbose=verbose,
-    )
+    with GracefulKiller() if verbose else nullcontext() as killer:
+        (
+            final_adam_state_flat,
+            final_model_state,
+            final_model_rng,
+            final_epoch,
+            best_val_loss,
+            best_epoch,
+        ) = _train(
+            batch_rng,
+            update_fn,
+            increment_epoch,
+            adam_state_flat,
+            tuple(trainable_flags_flat),
+            get_params,
+            update_params_direct,
+            init_state,  # initial model state
+            init_rng,  # initial model rng
+            X,
+            Y,
+            Y_unc,
+            X_val,
+            Y_val,
+            Y_val_unc,
+            loss_fn,
+            val_loss_fn,
+            grad_loss_fn,
+            batch_size=batch_size,
+            val_batch_size=val_batch_size,
+            start_epoch=0,  # always start from 0
+            epochs=epochs,
+            target_loss=target_loss,
+            early_stopping_patience=early_stopping_patience,
+            early_stopping_min_delta=early_stopping_min_delta,
+            callback=callback,
+            unroll=unroll,
+            verbose=verbose,
+            killer=killer,
+        )
+        if verbose:
+            jax.block_until_ready(final_adam_state_flat)
 
     # rebuild the params PyTree
     best_params_list = jax.tree.map(
-- 
2.43.0


From b68dabda779bdfbf2ed1a071e8fcfb2b53f5352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:34 +0000
Subject: [PATCH 57/66] fix: predictions without recompilation failed on
 remaining samples that are scalars

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..3ba7fe8 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -213,7 +213,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None, ...], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From d04809d68d2a42a41c2ba7732e7764049df5349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:34 +0000
Subject: [PATCH 58/66] fix: writing parameters or state of the wrong shape was
 accepted, or applied in part

---
 parametricmatrixmodels/model.py | 56 +++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 1029c93..9d767fe 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -367,7 +367,7 @@ class Model(BaseModule):
         # this will fail if the structure of self.modules isn't a prefix of the
         # structure of params
         try:
-            jax.tree.map(lambda m, p: m.set_params(p), self.modules, params)
+            self._set_all("params", params)
         except ValueError as e:
             raise ValueError(
                 "Structure of params does not match structure of modules. "
@@ -375,6 +375,58 @@ class Model(BaseModule):
                 "structure of the params."
             ) from e
 
+    def _verify_values(self, kind: str, values: Any) -> None:
+        """
+        Check that ``values`` has the structure and shapes of the current
+        params or state (``kind``) of all modules that are ready.
+        """
+
+        def verify(module: BaseModule, new: Any) -> None:
+            if isinstance(module, Model):
+                module._verify_values(kind, new)
+            elif module.is_ready():
+                old = getattr(module, f"get_{kind}")()
+                if not jax.tree.leaves(old) and not jax.tree.leaves(new):
+                    return
+                if jax.tree.structure(old) != jax.tree.structure(new):
+                    raise ValueError(
+                        f"Structure of {kind} of {module.name} must be "
+                        f"{jax.tree.structure(old)}, got "
+                        f"{jax.tree.structure(new)}."
+                    )
+                old_shapes = [np.shape(o) for o in jax.tree.leaves(old)]
+                new_shapes = [np.shape(n) for n in jax.tree.leaves(new)]
+                if old_shapes != new_shapes:
+                    raise ValueError(
+                        f"Shapes of {kind} of {module.name} must be "
+                        f"{old_shapes}, got {new_shapes}."
+                    )
+
+        jax.tree.map(verify, self.modules, values)
+
+    def _set_all(self, kind: str, values: Any) -> None:
+        """
+        Set the params or state (``kind``) of all modules, or of none of them
+        if any of the values is refused.
+        """
+
+        self._verify_values(kind, values)
+        done = []
+
+        def set_one(module: BaseModule, new: Any) -> None:
+            old = getattr(module, f"get_{kind}")()
+            ready = module.is_ready()
+            getattr(module, f"set_{kind}")(new)
+            done.append((module, old, ready))
+
+        try:
+            jax.tree.map(set_one, self.modules, values)
+        except Exception:
+            for module, old, ready in done:
+                if ready:
+                    getattr(module, f"set_{kind}")(old)
+            raise
+
     def get_state(self) -> ModelState:
         r"""
         Get the state of the model. The state is a PyTree of PyTrees of numpy
@@ -430,7 +482,7 @@ class Model(BaseModule):
         # this will fail if the structure of self.modules isn't a prefix of the
         # structure of state
         try:
-            jax.tree.map(lambda m, s: m.set_state(s), self.modules, state)
+            self._set_all("state", state)
         except Exception as e:
             raise ValueError(
                 "Unable to set model state, see inner exception for details."
-- 
2.43.0


From 058a005a53a60223d42bc5f26bc54e4c67b19b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 59/66] fix: changing the precision turned integer module state
 into floats

---
 parametricmatrixmodels/modules/basemodule.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..6baff99 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -683,9 +683,12 @@ class BaseModule(ABC):
         def set_param_prec(p: np.ndarray) -> np.ndarray:
             """
             Set the precision of a single parameter array, choosing real or
-            complex precision based on the original dtype.
+            complex precision based on the original dtype. Arrays of integers,
+            booleans, or random keys have no such precision and are kept.
             """
-            if np.iscomplexobj(p):
+            if not np.issubdtype(p.dtype, np.inexact):
+                return p
+            elif np.iscomplexobj(p):
                 return p.astype(np.complex64 if prec == 32 else np.complex128)
             else:
                 return p.astype(np.float32 if prec == 32 else np.float64)
-- 
2.43.0


From f6a676d4fcd2d5cd45b72a1f04d686ccdfd62b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 60/66] fix: a compiled NonSequentialModel declared its own
 output shape for every input shape

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index f3296d0..f15a0c6 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -20,6 +20,7 @@ from .model_util import (
 )
 from .modules import BaseModule
 from .tree_util import (
+    all_equal,
     extend_structure_from_strpaths,
     getitem_by_strpath,
     is_shape_leaf,
@@ -723,7 +724,7 @@ class NonSequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
+        if self.is_ready() and all_equal(self.input_shape, input_shape):
             return self.output_shape
 
         _, _, output_shape = self._get_shape_progression(input_shape)
-- 
2.43.0


From f267c48d6542bfc02d55e3e0519df20891c7b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 61/66] fix: asking a Flatten module for an output shape
 changed the shape it was compiled for

---
 parametricmatrixmodels/modules/flatten.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/parametricmatrixmodels/modules/flatten.py b/parametricmatrixmodels/modules/flatten.py
index 1287a8a..76be877 100644
--- a/parametricmatrixmodels/modules/flatten.py
+++ b/parametricmatrixmodels/modules/flatten.py
@@ -49,18 +49,8 @@ class Flatten(Reshape):
         )
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
-        # if input_shape is an iterable of ints, then the input is a single
-        # array
-        if all(isinstance(dim, int) for dim in input_shape):
-            self.shape = (-1,)
-            return super().get_output_shape(input_shape)
-
-        # construct the tree of output shapes (all (-1,))
-        input_shapes, input_struct = jax.tree.flatten(
-            input_shape, is_leaf=is_shape_leaf
-        )
-        self.shape = jax.tree.unflatten(
-            input_struct,
-            [(-1,) for _ in input_shapes],
-        )
-        return super().get_output_shape(input_shape)
+        # the shape asked about need not be the one this module was compiled
+        # for, so leave self.shape as it is
+        other = Flatten()
+        other.compile(None, input_shape)
+        return super(Flatten, other).get_output_shape(input_shape)
-- 
2.43.0


From 2badc00d6de12e3c1c19f75c1298f291345160af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:32 +0000
Subject: [PATCH 62/66] fix: the state after input gradients had a sample axis,
 and batched input gradients of stateful models failed

---
 parametricmatrixmodels/model.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9d767fe..aa71b62 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -854,10 +854,25 @@ class Model(BaseModule):
                 grad_single = jax.jacrev(
                     callable_single, argnums=1, has_aux=True
                 )
-            self.grad_callable_inputs = jax.vmap(
+            grad_batch = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
 
+            def grad_callable(
+                params: ModelParams,
+                X: Data,
+                training: bool,
+                state: ModelState,
+                rng: Any,
+            ) -> Tuple[PyTree[Inexact[Array, "..."]], ModelState]:
+                grad, _ = grad_batch(params, X, training, state, rng)
+                # the states of the separate samples cannot be combined, so
+                # take the state from an evaluation of the whole batch
+                _, new_state = raw_callable(params, X, training, state, rng)
+                return grad, new_state
+
+            self.grad_callable_inputs = grad_callable
+
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
 
-- 
2.43.0


From 03added8f04c9e6caa7f3be2a25144bf0f725e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:06 +0000
Subject: [PATCH 63/66] fix: gradients kept the differentiation mode of an
 earlier call

---
 parametricmatrixmodels/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index aa71b62..f0f80a7 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -872,6 +872,7 @@ class Model(BaseModule):
                 return grad, new_state
 
             self.grad_callable_inputs = grad_callable
+            self.autobatched_grad_callable_inputs = None
 
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
@@ -1007,6 +1008,7 @@ class Model(BaseModule):
         ):
             raw_callable = self._get_callable()
             self.grad_callable_params_options = fwd
+            self.autobatched_grad_callable_params = None
             if fwd:
                 self.grad_callable_params = jax.jacfwd(
                     raw_callable, argnums=0, has_aux=True
-- 
2.43.0


From 3868b065c2e44cd2e7a3f8062864d4654d4e9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:42 +0000
Subject: [PATCH 64/66] fix: the pseudo-Huber loss failed on PyTrees

---
 parametricmatrixmodels/training.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 3439cde..ebec8c2 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1841,14 +1841,10 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda x: delta**2
+                * (np.sqrt(1 + np.abs(x / delta) ** 2) - 1),
+                error,
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From 11164f1fc12ffac3bad8e8d9ffa438179e522e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 65/66] fix: the complex optimizer advanced its epoch counter
 with every batch and again with every epoch

---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index ebec8c2..b9f40e5 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -304,7 +304,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From 51f5eb08bf17146de3c1fed8b2e137301241aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 66/66] fix: categories that are not in the training data were
 at half the distance of a mismatch

The distance sensitivity of a conformalized model is the Gower distance, where a
categorical feature matches or not; an unseen value was encoded as all zeros and
ended up at distance 1/2 from every training point.
---
 .../conformal/conformalizedmodel.py                | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 98a5b69..51054a3 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1116,6 +1116,20 @@ class ConformalizedModel(object):
 
         # we encode and scale the input data
         X_encoded = self._onehot_training_enc.transform(X)
+        # values that are not in the training data are encoded as all zeros, an
+        # additional category for them keeps them at distance 1 from all others
+        X_encoded = jax.tree.map(
+            lambda x, cont, dist: (
+                x
+                if cont or not dist
+                else np.concatenate(
+                    [x, 1 - np.sum(x, axis=-1, keepdims=True)], axis=-1
+                )
+            ),
+            X_encoded,
+            self._continuous_features,
+            self._distance_sensitivity,
+        )
         X_scaled = tree_util.div(X_encoded, self._range_X_train)
 
         # then we flatten the PyTree and all contributing feature axes into a
-- 
2.43.0

