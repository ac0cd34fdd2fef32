From dc52046b5bcad026d508c22bd6cc3e9a4dd2f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 01/65] fix: keep tuple and nested module structures intact
 when saving models

---
 parametricmatrixmodels/model.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..66b2112 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -45,6 +45,23 @@ from .typing import (
 )
 
 
+def _as_npz_data(data: Dict[str, Serializable]) -> Dict[str, Any]:
+    r"""
+    Box containers into zero-dimensional object arrays so that numpy stores
+    them as-is. Otherwise numpy would attempt to stack tuples and lists into a
+    single array, which either fails or changes the structure of the data.
+    """
+
+    def box(value: Any) -> Any:
+        if not isinstance(value, (tuple, list)):
+            return value
+        boxed = onp.empty((), dtype=object)
+        boxed[()] = value
+        return boxed
+
+    return {key: box(value) for key, value in data.items()}
+
+
 class Model(BaseModule):
     r"""
 
@@ -1753,7 +1770,7 @@ class Model(BaseModule):
 
         # if everything serializes correctly, we can save the model with just
         # savez
-        data: Dict[str, Serializable] = self.serialize()
+        data = _as_npz_data(self.serialize())
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
@@ -1771,7 +1788,7 @@ class Model(BaseModule):
         """
         # if everything serializes correctly, we can save the model with just
         # savez_compressed
-        data: Dict[str, Serializable] = self.serialize()
+        data = _as_npz_data(self.serialize())
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-- 
2.43.0


From e48eab45995f0f5d269c43b0df98cae528eb1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 02/65] fix: include path_order and separator in
 ConcatenateLeaves hyperparameters

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From 67dec6b45e3a61c1371614fbc6ece09189674fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 03/65] fix: do not concatenate over the batch dimension for
 negative axes in ConcatenateLeaves

---
 parametricmatrixmodels/modules/concatenateleaves.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 4448856..2b51cc5 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -77,6 +77,10 @@ class ConcatenateLeaves(BaseModule):
     def is_ready(self) -> bool:
         return True
 
+    def _batched_axis(self) -> int:
+        # negative axes already skip the leading batch dimension
+        return self.axis + 1 if self.axis >= 0 else self.axis
+
     def _get_callable(self) -> ModuleCallable:
 
         @jaxtyped(typechecker=beartype)
@@ -112,7 +116,7 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                return np.concatenate(leaves, axis=self._batched_axis()), state
 
         return concatenate_leaves_callable
 
@@ -165,7 +169,9 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                concatenated = np.concatenate(
+                    leaves, axis=self._batched_axis()
+                )
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From 6f2944bfaa91a09fa377aafb48d36abaefe9d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:41 +0000
Subject: [PATCH 04/65] fix: include matrix_rank in
 LowRankAffineHermitianMatrix hyperparameters

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From f7c32126a5dd5b3de5841ff10693ef50aa54ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:41 +0000
Subject: [PATCH 05/65] fix: keep the custom separator when setting MatMul
 hyperparameters

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..c060f20 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From e2a8d175e11a1b5de2335ad4735c52783bf2bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:41 +0000
Subject: [PATCH 06/65] fix: use per-leaf matrix sizes in
 Eigenvalues.get_output_shape

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From 1b9f79f8249ec5d37185ec71d50941e533e230f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:00 +0000
Subject: [PATCH 07/65] fix: support multiple leading parameter arrays in
 Einsum

---
 parametricmatrixmodels/modules/einsum.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..c1b017d 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,13 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [
+                    p.shape
+                    for p in jax.tree.leaves(
+                        self.params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
+                    )
+                ]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
@@ -472,9 +476,7 @@ class Einsum(BaseModule):
 
         # if leading_str is None then params must be None or empty
         # if it's not None, params may still be None (to be initialized later)
-        if leading_str is None and not (
-            self.params is None or self.params == ()
-        ):
+        if leading_str is None and len(jax.tree.leaves(self.params)) > 0:
             raise ValueError(
                 "If einsum_str does not specify leading arrays, then "
                 "params must be None or empty."
-- 
2.43.0


From 40b118b4c95689d5605ff6774e8e0f7bc5ee9ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:36 +0000
Subject: [PATCH 08/65] fix: evaluate Einsum with the given parameters instead
 of baked-in values

---
 parametricmatrixmodels/modules/einsum.py | 35 ++++++++----------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index c1b017d..e36bf45 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -639,30 +639,19 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
-            # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
+            # params will be the leading arrays, if there are any, whether
+            # they are trainable or fixed. They must not be read from
+            # self.params since this callable is traced and cached, which would
+            # bake in the current values
+            if isinstance(params, np.ndarray):
+                arrays.append(params)
+            else:
+                arrays.extend(
+                    jax.tree.leaves(
+                        params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
                     )
+                )
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
-- 
2.43.0


From ab3320845b9693580c6a4d186c7400e8cb496a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 09/65] fix: allow leaves of different shapes in tree_util mean
 and scalar operations

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..78b8731 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -578,7 +578,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -823,9 +823,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -847,9 +847,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From 4b53623f318a3dd2f0e5dad2bf0916893ede6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 10/65] fix: support PyTree outputs in the pseudo-Huber loss

---
 parametricmatrixmodels/training.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..95f32d7 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1787,14 +1787,11 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda e2: delta**2 * (np.sqrt(1 + e2) - 1),
+                pmm_tree_util.abs_sqr(
+                    jax.tree.map(lambda x: x / delta, error)
+                ),
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From cb14a3bb9088a0c583d37d6b07a21d013f2c8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 11/65] fix: report the input shape for leaves that Reshape
 leaves unchanged

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..ba7f5a6 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -174,7 +174,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From ff9adf5d1646369cb29581d2df4ff86b8f45dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:46 +0000
Subject: [PATCH 12/65] fix: handle negative indices when popping modules
 stored in a tuple

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 66b2112..7f65c1e 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1472,8 +1472,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            items = list(self.modules)
+            module = items.pop(index)
+            self.modules = tuple(items)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From 4450d38a3f7d562e8ca66cd1ff7f3533abedcaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 13/65] fix: do not modify the left operand when adding a
 module to a model

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 7f65c1e..c7006db 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import random
 import sys
 import uuid
@@ -1532,7 +1533,8 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # copy the container so that appending doesn't modify this model
+        new_model = self.__class__(copy.copy(self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From 539ccdce18896a3e8ef8be47a156ddd81f248bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 14/65] fix: support replacing modules stored in a tuple

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c7006db..0c9c680 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1351,7 +1351,12 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                items = list(self.modules)
+                items[key] = module
+                self.modules = tuple(items)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
-- 
2.43.0


From 8692cca7d4d666c81009c59e4eddd628136f7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 15/65] fix: honor a changed fwd option in grad_input and
 grad_params

---
 parametricmatrixmodels/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 0c9c680..d3a1c2d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -780,6 +780,8 @@ class Model(BaseModule):
             self.grad_callable_inputs = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
+            # the batched version must be rebuilt from the new callable
+            self.autobatched_grad_callable_inputs = None
 
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
@@ -922,6 +924,8 @@ class Model(BaseModule):
                 self.grad_callable_params = jax.jacrev(
                     raw_callable, argnums=0, has_aux=True
                 )
+            # the batched version must be rebuilt from the new callable
+            self.autobatched_grad_callable_params = None
 
         # safecast input to requested dtype
         X_ = safecast(X, dtype)
-- 
2.43.0


From cfd98d96fa37f8c47aede53a6248b61b7962fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:05 +0000
Subject: [PATCH 16/65] fix: default to reverse mode in grad_params for complex
 parameters

---
 parametricmatrixmodels/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index d3a1c2d..b9e548c 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -909,7 +909,10 @@ class Model(BaseModule):
             # if fwd is None, decide based on input and output sizes
             # fwd is more efficient when the number of input elements is less
             # than the number of output elements in general
-            fwd = num_input_elems < num_output_elems
+            # forward mode doesn't support complex parameters
+            fwd = num_input_elems < num_output_elems and not any(
+                np.iscomplexobj(p) for p in jax.tree.leaves(self.get_params())
+            )
 
         if self.grad_callable_params is None or (
             fwd is not None and (self.grad_callable_params_options != fwd)
-- 
2.43.0


From bb5b22072938263f85206b283a36f21e9e26b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 17/65] fix: do not mix columns of multi-column categories in
 OneHot

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..2e22db9 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # np.unique returns the rows in sorted order, which ensures consistent
+        # ordering across runs and platforms
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From 7bbe8148d7fc3af513a80b12aea47ecb552a3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 18/65] fix: allow different numbers of categories per leaf in
 OneHot

---
 parametricmatrixmodels/preprocessing/onehot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 2e22db9..6564ea3 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -21,7 +21,7 @@ class OneHot(Scaler):
         Initializes OneHot encoder.
         """
         self.unique_vals_: (
-            PyTree[Inexact[Array, "n_unique ?*f"], " Data"] | None
+            PyTree[Inexact[Array, "?n_unique ?*f"], " Data"] | None
         ) = None
         self.original_shapes_: PyTree[Tuple[int, ...], " Data"] | None = None
 
@@ -62,7 +62,7 @@ class OneHot(Scaler):
         self,
         X: PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"],
         y: Any | None = None,
-    ) -> PyTree[Inexact[Array, "n num_unique"], " Data"]:
+    ) -> PyTree[Inexact[Array, "n ?num_unique"], " Data"]:
         """
         Encodes the input data as one-hot based on the unique values found
         during fitting. Values not found during fitting are encoded as all
@@ -97,7 +97,7 @@ class OneHot(Scaler):
 
     def inverse_transform(
         self,
-        X_encoded: PyTree[Inexact[Array, "n num_unique"], " Data"],
+        X_encoded: PyTree[Inexact[Array, "n ?num_unique"], " Data"],
         y_encoded: Any | None = None,
     ) -> PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"]:
         """
-- 
2.43.0


From 719a25d79c814a95d17545848c6693bd3fbd7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 19/65] fix: avoid NaN for constant features in StandardScaler

---
 parametricmatrixmodels/preprocessing/standard_scaler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..be7878c 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,7 +42,13 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        self.scale_ = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        # constant features are only centered, to avoid division by zero
+        self.scale_ = jax.tree.map(
+            lambda x: np.where(
+                np.ptp(x, axis=0) > 0, np.std(x, axis=0), 1.0
+            ),
+            X,
+        )
 
         return self
 
-- 
2.43.0


From f877cdaaaddc297df9c4dfca69235f0df77115e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 20/65] fix: avoid NaN for constant features in MinMaxScaler

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..f881d86 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -121,7 +121,11 @@ class MinMaxScaler(Scaler):
         return jax.tree.map(
             lambda x, data_min, data_max, min_v, max_v: (
                 (
-                    (x - data_min) / (data_max - data_min) * (max_v - min_v)
+                    (x - data_min)
+                    / np.where(
+                        data_max > data_min, data_max - data_min, 1.0
+                    )
+                    * (max_v - min_v)
                     + min_v
                 )
                 if (min_v is not None and max_v is not None)
-- 
2.43.0


From 024e8b007ed28063f7a59090af93506ab5445753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 21/65] fix: apply scalar RobustScaler options to all leaves

---
 .../preprocessing/robust_scaler.py            | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..72d3336 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -125,6 +125,17 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+        # a single value applies to all leaves
+        def broadcast(value: Any) -> Any:
+            if value is None or np.isscalar(value):
+                return jax.tree.map(lambda _: value, X)
+            return value
+
+        q_low = broadcast(self.q_low)
+        q_high = broadcast(self.q_high)
+        with_scaling = broadcast(self.with_scaling)
+        with_centering = broadcast(self.with_centering)
+
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -132,8 +143,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            q_low,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -143,8 +154,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            q_high,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -155,14 +166,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            with_centering,
         )
 
         return self
-- 
2.43.0


From 4eaa0fc9dbd6ea18f6f2f1dbc1063cb65a2437aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 22/65] fix: support leaves with more than one feature in
 RobustScaler

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 72d3336..d8aaba9 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -202,9 +202,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
+                (x - median)
+                / np.where(np.abs(scale) > self.eps, scale, 1.0)
             ),
             X,
             self.median_,
@@ -236,9 +235,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
+                x_scaled * np.where(np.abs(scale) > self.eps, scale, 1.0)
+                + median
             ),
             X_scaled,
             self.median_,
-- 
2.43.0


From f9d9fe656bae5b3cc9db8a1dc25b8e760f4225e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 23/65] fix: support per-feature quantiles in RobustScaler

---
 .../preprocessing/robust_scaler.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index d8aaba9..d3e1486 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -107,6 +107,16 @@ class RobustScaler(Scaler):
         self.scale_: BatchlessRealDataFixed | None = None
         self.median_: BatchlessRealDataFixed | None = None
 
+    @staticmethod
+    def _quantile(x: Array, q: float | int | Array) -> Array:
+        # one quantile for all features
+        if np.ndim(q) == 0:
+            return np.quantile(x, q, axis=0)
+        # a separate quantile for each feature
+        return jax.vmap(np.quantile)(
+            x.reshape(x.shape[0], -1).T, np.ravel(q)
+        ).reshape(x.shape[1:])
+
     def fit(
         self, X: RealDataFixed, y: RealDataFixed | None = None
     ) -> RobustScaler:
@@ -138,7 +148,7 @@ class RobustScaler(Scaler):
 
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                self._quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -149,7 +159,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                self._quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From 9c4069f4ac3f21c9f76d2d21b872e5a9e64508fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:28 +0000
Subject: [PATCH 24/65] fix: keep tuple and list structures intact when saving
 scalers

---
 parametricmatrixmodels/preprocessing/scaler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..03dcd17 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -142,6 +142,19 @@ class Scaler(ABC):
         """
         pass
 
+    @staticmethod
+    def _boxed(data: Dict[str, Any]) -> Dict[str, Any]:
+        r"""
+        Box tuples and lists into zero-dimensional object arrays, since numpy
+        would otherwise attempt to stack them into a single array.
+        """
+        boxed = dict(data)
+        for key, value in data.items():
+            if isinstance(value, (tuple, list)):
+                boxed[key] = onp.empty((), dtype=object)
+                boxed[key][()] = value
+        return boxed
+
     @final
     def save(self, filepath: IO | Path | str) -> None:
         r"""
@@ -152,7 +165,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = self._boxed(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez(filepath, **data)
@@ -167,7 +180,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = self._boxed(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez_compressed(filepath, **data)
-- 
2.43.0


From 2b58afdbf8ccb7d0285f8e367928e7c57673144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:04 +0000
Subject: [PATCH 25/65] fix: restore scalers whose range was given as an array

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 2 ++
 parametricmatrixmodels/preprocessing/robust_scaler.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index f881d86..d5e1b22 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -61,6 +61,8 @@ class MinMaxScaler(Scaler):
                 both will be treated as None for that feature.
                 Default is (0.0, 1.0).
         """
+        if isinstance(feature_range, Array):
+            feature_range = feature_range.tolist()
         self.min_val, self.max_val = feature_range
         self.data_min_: BatchlessRealDataFixed | None = None
         self.data_max_: BatchlessRealDataFixed | None = None
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index d3e1486..f43f458 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -100,6 +100,8 @@ class RobustScaler(Scaler):
                 Minimum scale value to avoid division by zero when scaling.
                 Default is 1e-12.
         """
+        if isinstance(quantile_range, Array):
+            quantile_range = quantile_range.tolist()
         self.q_low, self.q_high = quantile_range
         self.with_centering = with_centering
         self.with_scaling = with_scaling
-- 
2.43.0


From 8ec687a649b44d2a3893ac06adc65990a075271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:04 +0000
Subject: [PATCH 26/65] fix: allow None as the MinMaxScaler bound of PyTree
 data

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index d5e1b22..e74b1f8 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -111,11 +111,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
@@ -163,11 +163,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'inverse_transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
-- 
2.43.0


From 7ad60357a88376a79907547eaae16cf2f40bed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 27/65] fix: support inputs with leaves of different shapes in
 grad_input

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index b9e548c..ab7062c 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -755,7 +755,7 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-- 
2.43.0


From 3e0cd1ede967803a4a58dccc128d9923fb75a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 28/65] fix: discard cached conformal quantiles when
 recalibrating

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..af03882 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -813,6 +813,9 @@ class ConformalizedModel(object):
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
 
+        # quantiles cached from a previous calibration are no longer valid
+        self.qhats = {}
+
     def parameter_sensitivity(
         self,
         X: Data,
-- 
2.43.0


From 4330f6925e876551564e886fa649cfde0d73329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 29/65] fix: return infinite conformal quantiles for
 unreachable coverage levels

---
 .../conformal/conformalizedmodel.py                   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index af03882..2e2127b 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1169,13 +1169,16 @@ class ConformalizedModel(object):
 
         if new_alphas.size > 0:
             n = jax.tree.leaves(self.scores)[0].shape[0]
+            levels = np.ceil((n + 1) * (1 - new_alphas)) / n
             new_qhats = jax.tree.map(
                 # TODO: is there a generalization of quantile for complex
                 # numbers?
-                lambda s: np.quantile(
-                    s,
-                    np.ceil((n + 1) * (1 - new_alphas)) / n,
-                    axis=0,
+                # levels above 1 can't be reached with n calibration points,
+                # so only an infinite interval guarantees the coverage
+                lambda s: np.where(
+                    levels.reshape(-1, *(1 for _ in s.shape[1:])) > 1,
+                    np.inf,
+                    np.quantile(s, levels, axis=0),
                 ),
                 self.scores,
             )
-- 
2.43.0


From 886ca80dbff73c0960651964ca63f5c1d98651da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 30/65] fix: support multiple outputs in stratified bias
 corrections

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 2e2127b..76136a9 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From 54b43f51a49738077699c2063c98194125ae7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 31/65] fix: support multidimensional outputs in the distance
 sensitivity

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 76136a9..b894b5e 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1524,7 +1524,10 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                # one distance per sample, regardless of the output shape
+                u = jax.tree.map(
+                    lambda x: x + u_dist.reshape(-1, *(1,) * (x.ndim - 1)), u
+                )
 
         return u
 
-- 
2.43.0


From 09efa426adc8433c9932ddc9293aa535caa6ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 32/65] fix: support multi-column categorical features in the
 distance sensitivity

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index b894b5e..23b8bfb 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -646,7 +646,8 @@ class ConformalizedModel(object):
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    # single element, to broadcast over the one-hot encoding
+                    return np.full((1,), 2.0, dtype=feature.dtype)
                 return np.ptp(feature, axis=0)
 
             self._iqr_X_train = jax.tree.map(
-- 
2.43.0


From 77e452dcd71b533de1e294213ad4b5e0672ec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 33/65] fix: support constant training features in the distance
 sensitivity

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 23b8bfb..bf1da24 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -648,7 +648,9 @@ class ConformalizedModel(object):
                 if not is_continuous:
                     # single element, to broadcast over the one-hot encoding
                     return np.full((1,), 2.0, dtype=feature.dtype)
-                return np.ptp(feature, axis=0)
+                feature_range = np.ptp(feature, axis=0)
+                # constant features can't be scaled by their range
+                return np.where(feature_range > 0, feature_range, 1.0)
 
             self._iqr_X_train = jax.tree.map(
                 compute_iqr,
-- 
2.43.0


From fa05c2fd4a9f875c1ad71b3fa300fbd657dda7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 34/65] fix: allow calibrating with training data but no
 distance sensitivity

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index bf1da24..504250c 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -678,6 +678,9 @@ class ConformalizedModel(object):
             )
             self._onehot_training_enc.fit(self._training_data)
 
+        if self._training_data is not None and tree_util.any(
+            self._distance_sensitivity
+        ):
             flat_data = self._prepare_data_for_kdtree(self._training_data)
 
             # before building the KDTree, remove any duplicate points in the
@@ -1698,7 +1701,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From 84b134fcc05382788148bf9cba7ab164ec05e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 35/65] fix: scale input gradients with the uncertainties of
 each sample

---
 .../conformal/conformalizedmodel.py             | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 504250c..1c4f310 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import operator
 import sys
 import warnings
-from functools import partial
 from pathlib import Path
 from typing import IO
 
@@ -987,7 +986,8 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
+                    # the uncertainties differ for each sample
+                    lambda _, df: accumulate_sum_sq_over_output_leaves_batched(
                         u_dtype, df, X_unc
                     ),
                     self.model.output_shape,
@@ -1906,9 +1906,8 @@ def pytree_robust_normalization(
         return jax.tree.map(lambda d: robust_normalization(d, None, eps), data)
 
 
-@partial(jax.vmap, in_axes=(None, 0, None))
 @jaxtyped(typechecker=beartype)
-def accumulate_sum_sq_over_output_leaves(
+def accumulate_sum_sq_over_output_leaves_single(
     u_dtype: jax.typing.DTypeLike,
     df_leaf_dxs: PyTree[Inexact[Array, "..."], " In"],
     x_scales: PyTree[Inexact[Array, "..."], " In"],
@@ -1943,3 +1942,13 @@ def accumulate_sum_sq_over_output_leaves(
             x_scales,
         ),
     )
+
+
+# the same scales for all samples
+accumulate_sum_sq_over_output_leaves = jax.vmap(
+    accumulate_sum_sq_over_output_leaves_single, in_axes=(None, 0, None)
+)
+# different scales for each sample
+accumulate_sum_sq_over_output_leaves_batched = jax.vmap(
+    accumulate_sum_sq_over_output_leaves_single, in_axes=(None, 0, 0)
+)
-- 
2.43.0


From bb44740b25e387240083f68ffc5a9c6588a5208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 36/65] fix: compute weighted quantiles by sorting the data of
 each feature

---
 .../conformal/conformalizedmodel.py           | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 1c4f310..5f2bf0b 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1809,10 +1809,21 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    quantiles = np.asarray(quantiles)
+
+    def weighted_quantile_1d(d: Array, w: Array) -> Array:
+        idxs = np.argsort(d)
+        cum_weights = np.cumsum(w[idxs])
+        return np.interp(quantiles * cum_weights[~0], cum_weights, d[idxs])
+
+    # one set of quantiles for each feature
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    w_qs = jax.vmap(weighted_quantile_1d, in_axes=1, out_axes=~0)(
+        data.reshape(data.shape[0], -1),
+        weights.reshape(weights.shape[0], -1),
+    )
+    return w_qs.reshape(*quantiles.shape, *data.shape[1:])
 
 
 def mad(
-- 
2.43.0


From 56bce2bbcc2242b26574dc298ebeba7fd10d6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 37/65] fix: load conformalized models from file names without
 extension

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 5f2bf0b..9368bd7 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1766,6 +1766,8 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, str):
+            file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
-- 
2.43.0


From ae39d49445c09466875f4cddcdc6444aa3589b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 38/65] fix: restore the name of conformalized models as a
 string

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 9368bd7..16719c0 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1782,6 +1782,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data["conformal_name"], (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From bdd9aaa17097797f80c4a5cbff9aa6a9fcdff79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:52 +0000
Subject: [PATCH 39/65] fix: load from Path objects without extension, like
 they are saved

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 parametricmatrixmodels/model.py                        | 2 ++
 parametricmatrixmodels/preprocessing/scaler.py         | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 16719c0..973f227 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1766,6 +1766,8 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, Path):
+            file = str(file)
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index ab7062c..90158e7 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1827,6 +1827,8 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
+        if isinstance(file, Path):
+            file = str(file)
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 03dcd17..253f21a 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -200,6 +200,8 @@ class Scaler(ABC):
         Scaler
             Loaded scaler.
         """
+        if isinstance(filepath, Path):
+            filepath = str(filepath)
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         data = onp.load(filepath, allow_pickle=True)
-- 
2.43.0


From e1567d22fc47d5755273f3fc13c9b47f20b1f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 40/65] fix: use the given bias in AffineObservablePMM

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..4abfb02 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -289,6 +289,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From 01ef96374d2a2cc2b87f3092c2a008af3d7c1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 41/65] fix: do not export a nonexistent Fix activation

---
 parametricmatrixmodels/modules/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/__init__.py b/parametricmatrixmodels/modules/__init__.py
index 5ce432b..f6a47e7 100644
--- a/parametricmatrixmodels/modules/__init__.py
+++ b/parametricmatrixmodels/modules/__init__.py
@@ -136,7 +136,6 @@ __all__ = [  # noqa: F405
     "Exp2",
     "Expm1",
     "FAbs",
-    "Fix",
     "FloatPower",
     "Floor",
     "FloorDivide",
-- 
2.43.0


From 0d2a379835ce817a891e4cf46a6fd7f1e947df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:41 +0000
Subject: [PATCH 42/65] fix: report the output shape of activations that change
 the shape

---
 parametricmatrixmodels/modules/activationbase.py | 13 ++++++++++++-
 parametricmatrixmodels/modules/linearnn.py       |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/activationbase.py b/parametricmatrixmodels/modules/activationbase.py
index cdb6bcb..b6a9c0e 100644
--- a/parametricmatrixmodels/modules/activationbase.py
+++ b/parametricmatrixmodels/modules/activationbase.py
@@ -16,6 +16,7 @@ from parametricmatrixmodels.typing import (
     Tuple,
 )
 
+from ..tree_util import is_shape_leaf
 from .basemodule import BaseModule
 
 
@@ -146,7 +147,17 @@ class ActivationBase(BaseModule):
         -------
             Output shapes after applying the activation function.
         """
-        return input_shape
+
+        # not all activation functions preserve the shape, e.g. GLU
+        def output_shape(shape: Tuple[int, ...]) -> DataShape:
+            out = jax.eval_shape(
+                self.func, jax.ShapeDtypeStruct((1, *shape), np.float32)
+            )
+            return jax.tree.map(lambda o: o.shape[1:], out)
+
+        return jax.tree.map(
+            output_shape, input_shape, is_leaf=is_shape_leaf
+        )
 
     def get_hyperparameters(self) -> HyperParams:
         """
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..2ea46b1 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -137,6 +137,9 @@ class LinearNN(SequentialModel):
                 "out_features must be specified before getting output shape."
             )
 
+        if self.activation is not None:
+            return self.activation.get_output_shape((self.out_features,))
+
         return (self.out_features,)
 
     def get_hyperparameters(self) -> HyperParams:
-- 
2.43.0


From c6bcf2d70042f5e316d84a84d95e5e2a73a88d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:41 +0000
Subject: [PATCH 43/65] fix: allow module names that start with 'input' or
 'output'

---
 parametricmatrixmodels/graph_util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..63c1c2c 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -360,7 +360,7 @@ def get_outer_connections_by_tree(
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
         # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
+        if key.split(separator)[0] in (in_key, out_key):
             # remove all IO paths here too
             stripped_key = key.split(separator)[0]
         else:
@@ -644,7 +644,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From 6a3011e28306c7d7c740978b93185e00bc5822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 44/65] fix: restore signal handlers after verbose training

---
 parametricmatrixmodels/training.py | 90 ++++++++++++++++++------------
 1 file changed, 53 insertions(+), 37 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 95f32d7..583086b 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1680,45 +1680,61 @@ def train(
     elif val_batch_size <= 0:
         val_batch_size = num_val_samples
 
-    # train
-    (
-        final_adam_state_flat,
-        final_model_state,
-        final_model_rng,
-        final_epoch,
-        best_val_loss,
-        best_epoch,
-    ) = _train(
-        batch_rng,
-        update_fn,
-        increment_epoch,
-        adam_state_flat,
-        tuple(trainable_flags_flat),
-        get_params,
-        update_params_direct,
-        init_state,  # initial model state
-        init_rng,  # initial model rng
-        X,
-        Y,
-        Y_unc,
-        X_val,
-        Y_val,
-        Y_val_unc,
-        loss_fn,
-        val_loss_fn,
-        grad_loss_fn,
-        batch_size=batch_size,
-        val_batch_size=val_batch_size,
-        start_epoch=0,  # always start from 0
-        epochs=epochs,
-        target_loss=target_loss,
-        early_stopping_patience=early_stopping_patience,
-        early_stopping_min_delta=early_stopping_min_delta,
-        callback=callback,
-        unroll=unroll,
-        verbose=verbose,
+    # verbose training installs its own signal handlers, remember the current
+    # ones in order to restore them afterwards
+    prev_handlers = (
+        {
+            sig: signal.getsignal(sig)
+            for sig in (signal.SIGINT, signal.SIGTERM)
+        }
+        if verbose
+        else {}
     )
 
+    # train
+    try:
+        (
+            final_adam_state_flat,
+            final_model_state,
+            final_model_rng,
+            final_epoch,
+            best_val_loss,
+            best_epoch,
+        ) = _train(
+            batch_rng,
+            update_fn,
+            increment_epoch,
+            adam_state_flat,
+            tuple(trainable_flags_flat),
+            get_params,
+            update_params_direct,
+            init_state,  # initial model state
+            init_rng,  # initial model rng
+            X,
+            Y,
+            Y_unc,
+            X_val,
+            Y_val,
+            Y_val_unc,
+            loss_fn,
+            val_loss_fn,
+            grad_loss_fn,
+            batch_size=batch_size,
+            val_batch_size=val_batch_size,
+            start_epoch=0,  # always start from 0
+            epochs=epochs,
+            target_loss=target_loss,
+            early_stopping_patience=early_stopping_patience,
+            early_stopping_min_delta=early_stopping_min_delta,
+            callback=callback,
+            unroll=unroll,
+            verbose=verbose,
+        )
+    finally:
+        for sig, handler in prev_handlers.items():
+            if handler is not None:
+                signal.signal(sig, handler)
+
     # rebuild the params PyTree
     best_params_list = jax.tree.map(
         get_params,
-- 
2.43.0


From 4b47a7b324aef6a56faadeae1dff4731caaf5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:55 +0000
Subject: [PATCH 45/65] fix: count epochs in the complex Adam optimizer like in
 the real one

---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 583086b..f67672a 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -265,7 +265,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From 66cd0c840ff5cdac28773d06b52462e54c361972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:07 +0000
Subject: [PATCH 46/65] fix: allow modules without parameter arrays in
 sequential models

---
 parametricmatrixmodels/sequentialmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..53231a2 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -323,7 +323,12 @@ class SequentialModel(Model):
                 is_leaf=lambda x: isinstance(x, tuple)
                 and len(x) == 4
                 and callable(x[0])
-                and isinstance(x[1], (jax.numpy.ndarray, list, tuple, dict)),
+                and (
+                    x[1] is None
+                    or isinstance(
+                        x[1], (jax.numpy.ndarray, list, tuple, dict)
+                    )
+                ),
             )
 
             # reconstruct new state PyTree
-- 
2.43.0


From e078365921190494aac3d284e841bbd2491eabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:00 +0000
Subject: [PATCH 47/65] fix: accept explicit None for the documented None
 defaults of the affine PMMs

---
 .../modules/affineeigenvaluepmm.py               |  6 +++---
 .../modules/affineobservablepmm.py               | 16 ++++++++--------
 parametricmatrixmodels/modules/comment.py        |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..813fa5d 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -64,11 +64,11 @@ class AffineEigenvaluePMM(SequentialModel):
 
     def __init__(
         self,
-        matrix_size: int = None,
+        matrix_size: int | None = None,
         num_eig: int = 1,
         which: str = "SA",
-        smoothing: float = None,
-        Ms: np.ndarray = None,
+        smoothing: float | None = None,
+        Ms: np.ndarray | None = None,
         init_magnitude: float = 0.01,
         bias_term: bool = True,
     ):
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 4abfb02..72ab042 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -113,19 +113,19 @@ class AffineObservablePMM(SequentialModel):
 
     def __init__(
         self,
-        matrix_size: int = None,
-        num_eig: int = None,
-        which: str = None,
-        smoothing: float = None,
+        matrix_size: int | None = None,
+        num_eig: int | None = None,
+        which: str | None = None,
+        smoothing: float | None = None,
         affine_bias_matrix: bool = True,
         num_secondaries: int = 1,
-        output_size: int = None,
+        output_size: int | None = None,
         centered: bool = True,
         bias_term: bool = True,
         use_expectation_values: bool = False,
-        Ms: np.ndarray = None,
-        Ds: np.ndarray = None,
-        b: np.ndarray = None,
+        Ms: np.ndarray | None = None,
+        Ds: np.ndarray | None = None,
+        b: np.ndarray | None = None,
         init_magnitude: float = 0.01,
     ):
         r"""
diff --git a/parametricmatrixmodels/modules/comment.py b/parametricmatrixmodels/modules/comment.py
index 41960ad..eb08c7a 100644
--- a/parametricmatrixmodels/modules/comment.py
+++ b/parametricmatrixmodels/modules/comment.py
@@ -17,7 +17,7 @@ class Comment(BaseModule):
 
     __version__: str = "0.0.0"
 
-    def __init__(self, comment: str = None) -> None:
+    def __init__(self, comment: str | None = None) -> None:
         """
         Create a ``Comment`` module.
 
-- 
2.43.0


From 7bc0b037de9f1899227ee2e94dd64449d3a1bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:19 +0000
Subject: [PATCH 48/65] fix: do not modify the caller's state when evaluating
 graph models

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..874aba6 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # copy the containers, the caller's state must not be modified
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From ca6425cef530705ca9cdf4ba2ec88f5ec1ad12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:53 +0000
Subject: [PATCH 49/65] fix: count the best epoch in the optimizer state
 training resumes from

---
 parametricmatrixmodels/training.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index f67672a..be90c8e 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1012,7 +1012,20 @@ def _train(
             val_loss < best_val_loss,
             lambda x, y: x,  # if the validation loss improved
             lambda x, y: y,  # if the validation loss did not improve
-            (val_loss, epoch, adam_state, model_state, model_rng),
+            (
+                val_loss,
+                epoch,
+                # the epoch is complete, so resuming from this state must
+                # continue with the next one
+                [
+                    increment_epoch(int(trainable), state)
+                    for trainable, state in zip(
+                        trainable_flags_flat, adam_state
+                    )
+                ],
+                model_state,
+                model_rng,
+            ),
             (
                 best_val_loss,
                 best_epoch,
-- 
2.43.0


From 0f900af331cb4417854f881921d43f70bb5b4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:43 +0000
Subject: [PATCH 50/65] fix: resume training from the current parameters

---
 parametricmatrixmodels/training.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index be90c8e..0bc7487 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1679,6 +1679,23 @@ def train(
 
     if not resume or adam_state is None:
         adam_state_flat = jax.tree.map(init_fn, init_params_flat)
+    elif init_params is not None:
+        # continue from the current parameters, which may have been set or
+        # converted to another precision since the last training
+        if any(
+            np.shape(p) != np.shape(s.params)
+            for p, s in zip(init_params_flat, adam_state_flat)
+        ):
+            raise ValueError(
+                "The shapes of the parameters in adam_state must match those"
+                " of init_params."
+            )
+        adam_state_flat = [
+            OptimizerState(
+                p, s.m.astype(p.dtype), s.v.astype(p.dtype), int(s.epoch)
+            )
+            for p, s in zip(init_params_flat, adam_state_flat)
+        ]
 
     # make sure the validation batch size isn't larger than the validation set
     num_val_samples = jax.tree.leaves(X_val)[0].shape[0]
-- 
2.43.0


From 65fe9784179a7c6239e1aa363d2307f66eccd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 51/65] fix: honour frozen modules inside nested models in
 training

---
 parametricmatrixmodels/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 90158e7..e7150cc 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1273,15 +1273,18 @@ class Model(BaseModule):
         # set the final optimizer state
         self._optimizer_state = final_optimizer_states
 
-    def get_trainable_modules(self) -> PyTree[bool, ModelStruct]:
+    def get_trainable_modules(self) -> PyTree[bool]:
         """
         Return a PyTree with the same structure as the model's modules, where
         each leaf node is a boolean indicating whether the corresponding module
         is trainable (i.e. mod.trainable == True and mod.get_params() is not
-        None/())
+        None/()). Nested models are represented by the PyTree of their own
+        modules.
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> PyTree[bool]:
+            if isinstance(mod, Model):
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From f11d1ea51fa9cadc39cecd428b70b5f604d63829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:13 +0000
Subject: [PATCH 52/65] fix: restore new values of constant features in
 MinMaxScaler.inverse_transform

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index e74b1f8..7a19600 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -177,7 +177,9 @@ class MinMaxScaler(Scaler):
                 (
                     (x_scaled - min_v)
                     / (max_v - min_v)
-                    * (data_max - data_min)
+                    * np.where(
+                        data_max > data_min, data_max - data_min, 1.0
+                    )
                     + data_min
                 )
                 if (min_v is not None and max_v is not None)
-- 
2.43.0


From 89aaf8ebc059a65dfa708d9b36d0e0b9d51861f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:18 +0000
Subject: [PATCH 53/65] fix: keep RobustScaler quantiles of equal values equal

---
 .../preprocessing/robust_scaler.py                  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index f43f458..16f99c2 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -111,11 +111,20 @@ class RobustScaler(Scaler):
 
     @staticmethod
     def _quantile(x: Array, q: float | int | Array) -> Array:
+        def quantile(v: Array, q: float | int | Array, **kw: Any) -> Array:
+            # rounding in the interpolation must not give equal values a
+            # spread, so keep the result between the neighboring values
+            return np.clip(
+                np.quantile(v, q, **kw),
+                np.quantile(v, q, method="lower", **kw),
+                np.quantile(v, q, method="higher", **kw),
+            )
+
         # one quantile for all features
         if np.ndim(q) == 0:
-            return np.quantile(x, q, axis=0)
+            return quantile(x, q, axis=0)
         # a separate quantile for each feature
-        return jax.vmap(np.quantile)(
+        return jax.vmap(quantile)(
             x.reshape(x.shape[0], -1).T, np.ravel(q)
         ).reshape(x.shape[1:])
 
-- 
2.43.0


From 67576e2bb80f3eee899ea165ca6a9fd95546ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:15 +0000
Subject: [PATCH 54/65] fix: calibrate conformalized models of only categorical
 features

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 973f227..6c359f9 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -451,6 +451,13 @@ class ConformalizedModel(object):
                 )
             self._input_sensitivity = input_sensitivity
 
+        # only continuous features have meaningful derivatives
+        self._input_sensitivity = jax.tree.map(
+            lambda s, cont: s and cont,
+            self._input_sensitivity,
+            self._continuous_features,
+        )
+
         if isinstance(distance_sensitivity, bool):
             self._distance_sensitivity = jax.tree.map(
                 lambda _: distance_sensitivity,
-- 
2.43.0


From e5b1141fbb1453b408807471199cba4b2d2aa8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 55/65] fix: extend nested tuples in
 extend_structure_from_strpaths

---
 parametricmatrixmodels/tree_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 78b8731..c63c69c 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -552,8 +552,9 @@ def extend_structure_from_strpaths(
                 current_node = current_node[key]
 
     # convert any list nodes that correspond to tuple nodes in the
-    # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    # original base_pytree back to tuples, inner nodes before the tuples that
+    # contain them
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0


From b3b9685330a3d89c50fad02e3d6a6e025f462365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 56/65] fix: refuse to insert a module under an existing key

---
 parametricmatrixmodels/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index e7150cc..4d883ff 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1396,6 +1396,10 @@ class Model(BaseModule):
         if isinstance(self.modules, Dict):
             if key is None:
                 key = str(uuid.uuid4().hex)
+            elif key in self.modules:
+                raise KeyError(
+                    f"A module with key '{key}' already exists in the model."
+                )
             # create new dict with new module at index
             items = list(self.modules.items())
             items.insert(index, (key, module))
-- 
2.43.0


From 4a9ccc376ed99e3b3206526b34502017e529e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 57/65] fix: keep the random key when adding a module to a
 model with +

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4d883ff..33ec165 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1553,7 +1553,9 @@ class Model(BaseModule):
             New model with the other module or model appended.
         """
         # copy the container so that appending doesn't modify this model
-        new_model = self.__class__(copy.copy(self.modules))
+        new_model = self.__class__(
+            copy.copy(self.modules), rng=self.get_rng()
+        )
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From 08b015627f8ad6f09925255b5a5c8b308230f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:47 +0000
Subject: [PATCH 58/65] fix: append modules at the end also after empty
 containers

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 33ec165..6e7ec6f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1437,7 +1437,7 @@ class Model(BaseModule):
                 modules are stored in a list, tuple, or other structure.
         """
         self.insert_module(
-            len(jax.tree.leaves(self.modules)),
+            len(self.modules),
             module,
             key=key,
         )
-- 
2.43.0


From abfa40668aa9c4c49bf142bb8fcb41397161c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:03 +0000
Subject: [PATCH 59/65] fix: accept the documented integer precisions in
 BaseModule.astype

---
 parametricmatrixmodels/modules/basemodule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..4777cc8 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -694,7 +694,9 @@ class BaseModule(ABC):
         self.set_state(jax.tree.map(set_param_prec, self.get_state()))
 
     @jaxtyped(typechecker=beartype)
-    def astype(self, dtype: jax.typing.DTypeLike, /) -> "BaseModule":
+    def astype(
+        self, dtype: jax.typing.DTypeLike | int, /
+    ) -> "BaseModule":
         """
         Convenience wrapper to set_precision using the dtype argument, returns
         self.
-- 
2.43.0


From 755dc29fbc6442633e052e0ece0361d02bc9ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 60/65] fix: batch leaves without feature axes when avoiding
 recompilation

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..923cc37 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -213,7 +213,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From 1b864c0e5b7cd8c19d0517e53998415863e42273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:35 +0000
Subject: [PATCH 61/65] fix: keep ready-made models frozen that were frozen
 before compiling

---
 parametricmatrixmodels/model.py                       | 11 ++++++++---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py |  6 ++++++
 parametricmatrixmodels/modules/affineobservablepmm.py |  6 ++++++
 parametricmatrixmodels/modules/linearnn.py            |  6 ++++++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6e7ec6f..c486bb5 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -100,15 +100,20 @@ class Model(BaseModule):
             + "\n)"
         )
 
+    # flag of a model that has no modules (yet)
+    _trainable: bool = True
+
     # override the trainable property
     @property
     def trainable(self) -> bool:
-        return any(
-            module.trainable for module in jax.tree.leaves(self.modules)
-        )
+        modules = jax.tree.leaves(self.modules)
+        if len(modules) == 0:
+            return self._trainable
+        return any(module.trainable for module in modules)
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        self._trainable = value
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 813fa5d..0739e61 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -163,6 +163,9 @@ class AffineEigenvaluePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules that are built here keep the model frozen if it is
+        trainable = self.trainable
+
         if self.input_shape != input_shape or self.modules is None:
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
@@ -185,6 +188,9 @@ class AffineEigenvaluePMM(SequentialModel):
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         valid, _ = is_single_leaf(input_shape, is_leaf=is_shape_leaf)
         if not valid:
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 72ab042..b07efe3 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -249,6 +249,9 @@ class AffineObservablePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules that are built here keep the model frozen if it is
+        trainable = self.trainable
+
         # don't override existing modules if input shape hasn't changed
         if input_shape != self.input_shape or self.modules is None:
 
@@ -301,6 +304,9 @@ class AffineObservablePMM(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         if self.output_size is None:
             raise ValueError(
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 2ea46b1..001c5df 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -88,6 +88,9 @@ class LinearNN(SequentialModel):
                 "LinearNN only supports input shapes with a single leaf array."
             )
 
+        # modules that are built here keep the model frozen if it is
+        trainable = self.trainable
+
         if input_shape != self.input_shape or self.modules is None:
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
@@ -117,6 +120,9 @@ class LinearNN(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        if not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         r"""
         Get the output shape of the LinearNN module given the input shape.
-- 
2.43.0


From ecd0fb3bbfc7b8df561dcff6449b021f8136bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:03 +0000
Subject: [PATCH 62/65] fix: keep one state per batch in grad_input

---
 parametricmatrixmodels/model.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c486bb5..a389b5b 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -782,9 +782,29 @@ class Model(BaseModule):
                 grad_single = jax.jacrev(
                     callable_single, argnums=1, has_aux=True
                 )
-            self.grad_callable_inputs = jax.vmap(
+            grad_batched = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
+
+            def grad_callable_inputs(
+                params: ModelParams,
+                X: Data,
+                training: bool,
+                state: ModelState,
+                rng: Any,
+            ) -> Tuple[Data, ModelState]:
+                grads, new_state = grad_batched(
+                    params, X, training, state, rng
+                )
+                if jax.tree.leaves(new_state):
+                    # the mapped states are those after each single sample,
+                    # the new state is that after the whole batch
+                    _, new_state = raw_callable(
+                        params, X, training, state, rng
+                    )
+                return grads, new_state
+
+            self.grad_callable_inputs = grad_callable_inputs
             # the batched version must be rebuilt from the new callable
             self.autobatched_grad_callable_inputs = None
 
-- 
2.43.0


From f9b36aee7ba1ca52bce4ac0d42be2bf4405953a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:39 +0000
Subject: [PATCH 63/65] fix: do not reuse functions compiled before a nested
 model was edited

---
 parametricmatrixmodels/model.py | 34 ++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a389b5b..5ab7ceb 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -187,6 +187,23 @@ class Model(BaseModule):
             and self.output_shape is not None
         )
 
+    def _get_all_modules(self) -> List[BaseModule]:
+        """
+        All modules of the model, including those of nested models.
+        """
+        return [
+            m
+            for module in jax.tree.leaves(self.modules)
+            for m in (
+                module,
+                *(
+                    module._get_all_modules()
+                    if isinstance(module, Model)
+                    else ()
+                ),
+            )
+        ]
+
     def _get_all_unready_modules(self) -> List[BaseModule]:
         return [
             module
@@ -215,8 +232,12 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._reset_callables()
+
+    def _reset_callables(self) -> None:
+        self._callable_modules: List[BaseModule] | None = None
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
@@ -530,6 +551,17 @@ class Model(BaseModule):
                 "Please re-compile the model with the correct input shape."
             )
 
+        # functions made from other modules are outdated, e.g. after editing a
+        # nested model
+        modules = self._get_all_modules()
+        if (
+            self._callable_modules is None
+            or len(modules) != len(self._callable_modules)
+            or any(m is not c for m, c in zip(modules, self._callable_modules))
+        ):
+            self._reset_callables()
+            self._callable_modules = modules
+
     def __call__(
         self,
         X: Data,
-- 
2.43.0


From f06f89c0798bcd33910e9f77b6cdcf422805f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 64/65] fix: a refused compilation leaves the compiled shapes
 of a model as they were

---
 parametricmatrixmodels/nonsequentialmodel.py | 27 +++++++++++---------
 parametricmatrixmodels/sequentialmodel.py    | 20 ++++++++-------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 874aba6..935c570 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -430,33 +430,31 @@ class NonSequentialModel(Model):
             return
 
         # resolve the execution order
-        self.execution_order = self.get_execution_order()
+        execution_order = self.get_execution_order()
 
         if verbose:
             print(f"{self.name} execution order:")
-            for i, module_path in enumerate(self.execution_order):
+            for i, module_path in enumerate(execution_order):
                 print(f"  {i}: {module_path}")
 
-        # set the input and output shapes
-        self.input_shape = input_shape
-
-        input_progression, output_progression, self.output_shape = (
+        # get the input and output shapes
+        input_progression, output_progression, output_shape = (
             self._get_shape_progression(input_shape)
         )
 
         # assert that the output shape is [batch, ...] with at least one
         # non-batch dimension
-        if len(self.output_shape) < 1:
+        if len(output_shape) < 1:
             raise ValueError(
                 f"Model {self.name} output shape must have at least one"
-                f" non-batch dimension, but got {self.output_shape}."
+                f" non-batch dimension, but got {output_shape}."
             )
 
         if verbose:
-            print(f"{self.name} input shape: {self.input_shape}")
+            print(f"{self.name} input shape: {input_shape}")
             # print progression of shapes through the execution order
             print(f"{self.name} shape progression:")
-            for module_path in self.execution_order:
+            for module_path in execution_order:
                 if module_path == "input" or module_path == "output":
                     continue
                 module_input_shape = getitem_by_strpath(
@@ -479,10 +477,10 @@ class NonSequentialModel(Model):
                     f"  {module_path}: {module_input_shape} -> "
                     f"{module_output_shape}"
                 )
-            print(f"{self.name} output shape: {self.output_shape}")
+            print(f"{self.name} output shape: {output_shape}")
 
         # for all modules that appear in the execution order, compile them
-        for module_path in self.execution_order:
+        for module_path in execution_order:
             if module_path == "input" or module_path == "output":
                 continue
             rng, module_rng = jax.random.split(rng)
@@ -520,6 +518,11 @@ class NonSequentialModel(Model):
                     f"with input shape {module_input_shape}: {e}"
                 ) from e
 
+        # only a successful compilation makes the model ready
+        self.execution_order = execution_order
+        self.input_shape = input_shape
+        self.output_shape = output_shape
+
     def _get_module_input_dependencies(
         self,
     ) -> Tuple[List[PyTree[str]], PyTree[str]]:
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index 53231a2..6326a20 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,31 +129,33 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
-        self.input_shape = input_shape
+        output_shape = input_shape
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
             rng, modrng = jax.random.split(rng)
             try:
-                module.compile(modrng, input_shape)
+                module.compile(modrng, output_shape)
             except Exception as e:
                 raise RuntimeError(
                     f"Error compiling module {i} ({module.name}) "
-                    f"with input shape {input_shape}: {e}"
+                    f"with input shape {output_shape}: {e}"
                 ) from e
-            input_shape = module.get_output_shape(input_shape)
+            output_shape = module.get_output_shape(output_shape)
             if verbose:
-                print(f"  {i}: {module.name} output shape: {input_shape}")
-
-        self.output_shape = input_shape
+                print(f"  {i}: {module.name} output shape: {output_shape}")
 
         # make sure the output shape is [batch, ...] with at least one
         # non-batch dimension
-        if len(self.output_shape) < 1:
+        if len(output_shape) < 1:
             raise ValueError(
                 f"Model {self.name} output shape must have at least one"
-                f" non-batch dimension, but got {self.output_shape}."
+                f" non-batch dimension, but got {output_shape}."
             )
 
+        # only a successful compilation changes the shapes
+        self.input_shape = input_shape
+        self.output_shape = output_shape
+
     def get_output_shape(self, input_shape: DataShape, /) -> DataShape:
         r"""
         Get the output shape of the model given an input shape. Must be
-- 
2.43.0


From d68ff926f521936788fe3a82d0b0f45701e8fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:53 +0000
Subject: [PATCH 65/65] fix: verbose batched evaluation of functions that do
 not depend on the input

---
 parametricmatrixmodels/model_util.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 923cc37..89c0dcb 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -132,24 +132,31 @@ def autobatch(
             num_batches = orig_batch_size // max_batch_size
             remainder = orig_batch_size % max_batch_size
 
-            def start_pb(in_X: Data) -> Data:
-                ProgressBar(
+            def new_pb() -> Any:
+                return ProgressBar(
                     num_batches + 1 + (1 if remainder > 0 else 0),
                     length=20,
                     extra_info=extra_info,
                 )
-                ProgressBar.Instance.start(extra_info=extra_info)
+
+            def get_pb() -> Any:
+                # the progress bar is not started first (or at all) when the
+                # output of the function does not depend on X
+                return ProgressBar.Instance or new_pb()
+
+            def start_pb(in_X: Data) -> Data:
+                new_pb().start(extra_info=extra_info)
                 return in_X
 
             if verbose:
                 X = jax.pure_callback(start_pb, X, X)
 
             def update_pb(out: Data, i: int) -> Data:
-                ProgressBar.Instance.update(i)
+                get_pb().update(i)
                 return out
 
             def end_pb(out: Data) -> Data:
-                ProgressBar.Instance.end(newline=newline, clearline=clearline)
+                get_pb().end(newline=newline, clearline=clearline)
                 return out
 
             def body_fn(i_new_state, X_batch):
@@ -157,7 +164,7 @@ def autobatch(
                 out, new_state = jfn(params, X_batch, training, new_state, rng)
                 if verbose:
                     if avoid_recompilation:
-                        ProgressBar.Instance.update(i + 1)
+                        get_pb().update(i + 1)
                     else:
                         out = jax.pure_callback(update_pb, out, out, i + 1)
                 return (i + 1, new_state), out
@@ -203,7 +210,7 @@ def autobatch(
                 # from the last batch processed
                 if verbose:
                     if avoid_recompilation:
-                        ProgressBar.Instance.update(num_batches + 2)
+                        get_pb().update(num_batches + 2)
                     else:
                         out = jax.pure_callback(
                             update_pb, out, out, num_batches + 2
@@ -247,7 +254,7 @@ def autobatch(
 
             if verbose:
                 if avoid_recompilation:
-                    ProgressBar.Instance.end(
+                    get_pb().end(
                         newline=newline, clearline=clearline
                     )
 
-- 
2.43.0

