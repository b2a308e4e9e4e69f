From 907fae82ea266649f05ea07115ec8b8325a211a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/30] fix: rebuild the composite Hessian mask after adding or
 deleting components

CompositeProblem.hessian kept using the upper triangular mask of the old set
of constraints/objectives until hessianstructure was called again.
---
 lumos/optimal_control/nlp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..2b065df 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None  # the hessian structure changes with the components
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,10 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
-
+        self._idx_triu = None
 
     def _compute_objective(self, x):
         return np.sum(np.hstack([p.objective(x) for p in self._objectives.values()]))
-- 
2.43.0


From 9102b577501f330bcb6a4035206e1c5d782467df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 02/30] fix: use the builtin int instead of the removed np.int
 in the condensed Hessian structure

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..60b9963 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From e2362f3e8c45a54e23d05321561d6face5910cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 03/30] fix: map the array forward of the model for the custom
 backend

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..b6270b4 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -770,7 +770,7 @@ class StateSpaceModel(Model):
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
             self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From e59795b0fa22a3cfbd644d954cadf042638a6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 04/30] fix: leave the caller's configuration alone when
 building a condensed problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 60b9963..088292c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,17 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = tuple(sim_config.bounds)
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            bounds += tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From b155172109d2569ee4befa9269fa0ee967eda938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 05/30] fix: pass modified model parameters on to a condensed
 problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 088292c..cebdd6c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -163,7 +163,9 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        # In a condensed problem the parameterized constraints are kept in the storage.
+        cons = self._con_storage if self.is_condensed else self._constraints
+        cons["model_algebra"].set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From 6c5afdda30fa63b9f46c4f907bf0d2cdb3f0951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 06/30] fix: honour the delimiter when resolving paths in a
 tree

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..ee9a235 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 3fdc9eea966bb67f793aeb5dbfc809a3a2061ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 07/30] fix: reject setting a parameter that does not exist

---
 lumos/models/tree_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index ee9a235..9bb6478 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -177,6 +177,8 @@ class ParameterTree(Tree):
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
+        # Reading it first rejects a path to a parameter that does not exist.
+        self.get_param(path, delimiter)
         self._set_leaf(path, value, delimiter)
 
     # Methods required to register jax pytree
-- 
2.43.0


From 5aeae3cb0714c384a24d60fc97b53de8c951c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 08/30] fix: restore parameters of size one and zero with their
 shape

---
 lumos/models/tree_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 9bb6478..8378031 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -309,8 +309,8 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
-            for chunk, shape in zip(chunks, new_shapes)
+            chunk.reshape(new_shape) if shape else chunk[0]
+            for chunk, shape, new_shape in zip(chunks, shapes, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
 
-- 
2.43.0


From 5f245576231adf4088b782e3cae66a97fe19e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 09/30] fix: flatten and restore casadi parameter matrices in
 row-major order

---
 lumos/models/tree_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 8378031..7a0b68b 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -253,11 +253,19 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column major, but the flat parameters are row major as in numpy.
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        return x.reshape(shape[::-1]).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -309,7 +317,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(new_shape) if shape else chunk[0]
+            _reshape(chunk, new_shape) if shape else chunk[0]
             for chunk, shape, new_shape in zip(chunks, shapes, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 1c4d966623fb6102991f4c6601766061e8352e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 10/30] fix: restore the backend active on entry of
 use_backend, not on its creation

---
 lumos/numpy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..3c29911 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,17 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
+        # One entry per active use, as the same object can be re-used or nested, for
+        # example when it decorates a recursive function.
+        self._original_backends = []
         self._target_backend = backend
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From 8df2e93b23fe391fc42784111d97257771557620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 11/30] fix: take the batch size of lmap and cmap from a mapped
 argument

---
 lumos/numpy/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 3c29911..2371623 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -129,7 +129,11 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a
+            for (a, map_axis) in zip(args, full_in_axes)
+            if a is not None and map_axis is not None
+        )
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -226,7 +230,11 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a
+            for (a, map_axis) in zip(args, full_in_axes)
+            if a is not None and map_axis is not None
+        )
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From 337ed4e1153d5a7d6d1d55eed3521f3c8f46d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 12/30] fix: use the Hessian function under its name in the
 model solver

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From 81e13fc2dbc0c2178a289aa8cb7b7f18b359a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 13/30] fix: call the array forward by its name in
 Model.apply_and_forward_with_arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index b6270b4..3d7f959 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From cf6cdeceebf306fe939d5b42e2e27241472e14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 14/30] fix: log the mesh of the unscaled decision variables

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index cebdd6c..235a316 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -992,7 +992,9 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
+            unscaled_dec_var
+        )
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 9f49202ef6c1bf42d7fbab7da844c11b93ae9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 15/30] fix: start every solve with an empty iteration history

---
 lumos/optimal_control/scaled_mesh_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 235a316..2a344dc 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -199,6 +199,9 @@ class ScaledMeshOCP(CompositeProblem):
             logger.info("Triggering jax JIT")
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
+        # The iterations of a previous solve are not a part of the history of this one.
+        self._metrics_history_list = []
+        self._num_iter = None
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
-- 
2.43.0


From 861095ea7592206c07b5f00c4f29e273d423be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 16/30] fix: average all elements of a casadi matrix in mean
 without an axis

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..42371b0 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / x.numel()
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From dc9748dd436c13593baf2c2616bdb1939231d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 17/30] fix: repeat diff on its own result and along the last
 axis for casadi arrays

---
 lumos/numpy/casadi_numpy/calculus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..b677732 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -20,7 +20,8 @@ def diff(a, n=1, axis=-1):
 
         result = a
         for i in range(n):
-            result = _cas.diff(a)
+            # A column vector represents a 1-D array, whose last axis is the first.
+            result = _cas.diff(result, 1, 0 if a.shape[1] == 1 else 1)
         return result
 
 
-- 
2.43.0


From 8ccdecea103d87258ba7f4dc7859c44d4faa9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 18/30] fix: reshape casadi arrays in row-major order like
 numpy

---
 lumos/numpy/casadi_numpy/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..5aad808 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -288,7 +288,8 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        # casadi fills matrices by columns, numpy by rows
+        return _cas.reshape(a.T, newshape[::-1]).T
 
 
 def zeros(shape):
-- 
2.43.0


From 77eb199b9659a03f5cff758397ecc5354e51de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 19/30] fix: roll casadi arrays by any number of places along
 either axis

---
 lumos/numpy/casadi_numpy/array.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 5aad808..9443bd2 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,16 +244,17 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
+    else:
+        if axis == 0:
+            split = (-shift) % a.shape[0]
+            return _cas.vertcat(a[split:, :], a[:split, :])
         elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
+            split = (-shift) % a.shape[1]
+            return _cas.horzcat(a[:, split:], a[:, :split])
         elif axis is None:
-            return roll(a, shift=shift, axis=0)
+            if 1 in a.shape:
+                return roll(a, shift=shift, axis=0)
+            return reshape(roll(reshape(a, (a.numel(), 1)), shift, axis=0), a.shape)
         else:
             raise Exception(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 28a400f43ac8e9582e6b83e6635557ac516dcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 20/30] fix: raise instead of returning the error in
 finite_difference_coefficients

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From ddca20d60b7ec13db90c5feada93ae6284bfb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 21/30] fix: space geomspace geometrically for casadi arguments

---
 lumos/numpy/casadi_numpy/spacing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..b05ac2c 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -58,4 +58,4 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     else:
         if start <= 0 or stop <= 0:
             raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From 441e3bbdd81513bbcc13047ef249d8fb0438d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 22/30] fix: compute infinity, p and matrix norms of casadi
 arrays

---
 lumos/numpy/casadi_numpy/linalg.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..c0de7b0 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -75,7 +75,15 @@ def norm(x, ord=None, axis=None):
             else:
                 ord = "fro"
 
-        if ord == 1:
+        if axis is None and ord != "fro":
+            # The matrix norms, induced by the vector norms
+            if ord == 1:
+                return _cas.mmax(sum(abs(x), axis=0))
+            elif ord == _onp.inf:
+                return _cas.mmax(sum(abs(x), axis=1))
+            else:
+                raise ValueError(f"Matrix norm of order {ord} is not supported.")
+        elif ord == 1:
             # return _cas.norm_1(x)
             return sum(abs(x), axis=axis)
         elif ord == 2:
@@ -83,8 +91,10 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif ord in (0, _onp.inf, -_onp.inf):
+            if ord != _onp.inf or axis == -1 or x.shape[1 - axis] != 1:
+                raise ValueError(f"Norm of order {ord} along an axis is not supported.")
+            return _cas.mmax(abs(x))
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 33c5b2fafb145c4a4b235ddfaf60f03fd5148383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 23/30] fix: make dot and inner of casadi matrices matrix
 products

---
 lumos/numpy/casadi_numpy/determine_type.py   | 6 ++++++
 lumos/numpy/casadi_numpy/linalg.py           | 6 +++++-
 lumos/numpy/casadi_numpy/linalg_top_level.py | 5 ++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/determine_type.py b/lumos/numpy/casadi_numpy/determine_type.py
index 676d6af..fa88536 100644
--- a/lumos/numpy/casadi_numpy/determine_type.py
+++ b/lumos/numpy/casadi_numpy/determine_type.py
@@ -25,3 +25,9 @@ def is_casadi_type(array_like, recursive=True) -> bool:
             isinstance(array_like, cas.DM) or
             isinstance(array_like, cas.SX)
     )
+
+
+def is_matrix(array) -> bool:
+    """Whether an array is a matrix (2-D and not a row or column vector)."""
+    shape = getattr(array, "shape", ())
+    return len(shape) == 2 and 1 not in shape
diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index c0de7b0..be90c7f 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -1,7 +1,7 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type
+from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix
 
 
 def inner(x, y):
@@ -13,6 +13,10 @@ def inner(x, y):
     if not is_casadi_type([x, y], recursive=True):
         return _onp.inner(x, y)
 
+    elif is_matrix(x) and is_matrix(y):
+        # over the last axis of both
+        return x @ y.T
+
     else:
         return _cas.dot(x, y)
 
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..b518bc8 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -1,7 +1,7 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type
+from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix
 
 
 def dot(a, b):
@@ -13,6 +13,9 @@ def dot(a, b):
     if not is_casadi_type([a, b], recursive=True):
         return _onp.dot(a, b)
 
+    elif is_matrix(a) and is_matrix(b):
+        return a @ b
+
     else:
         return _cas.dot(a, b)
 
-- 
2.43.0


From ddc815aabe2066217fc3248ac3188650310ce84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 24/30] fix: stack casadi vectors as the rows of an array

---
 lumos/numpy/casadi_numpy/array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 9443bd2..b52e0b6 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -26,6 +26,9 @@ def array(array_like, dtype=None):
         # Handles inputs like [[opti_var_1, opti_var_2], [opti_var_3, opti_var_4]]
         def make_row(contents: List):
             try:
+                if is_casadi_type(contents, recursive=False):
+                    # A column vector, standing for a 1-D array, is one row
+                    return contents.T if contents.shape[1] == 1 else contents
                 return _cas.horzcat(*contents)
             except (TypeError, Exception):
                 return contents
-- 
2.43.0


From bb470838dc26b974a5f9a8e5cf1dfe6f42a51416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 25/30] fix: split casadi arrays at indices given as any
 sequence

---
 lumos/numpy/casadi_numpy/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index b52e0b6..b38a6dc 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -151,7 +151,7 @@ def split(array, indices_or_sections: Union[List[int], int], axis: int):
         else:
             # casadi requires the size of each split, instead of number of splits like numpy
             indices_or_sections = int(array.shape[axis] / indices_or_sections)
-    elif isinstance(indices_or_sections, list):
+    else:
         # casadi horzsplit/vertsplit works the same as numpy array indices, but need 0 and
         # size appended at the two ends
         indices_or_sections = [0, *indices_or_sections, array.shape[axis]]
-- 
2.43.0


From db211c2da1fcf066bfb90f917175be08d1aced29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 26/30] fix: count any non-zero casadi element as true in all
 and any

---
 lumos/numpy/casadi_numpy/logicals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/logicals.py b/lumos/numpy/casadi_numpy/logicals.py
index c23122f..77303c4 100644
--- a/lumos/numpy/casadi_numpy/logicals.py
+++ b/lumos/numpy/casadi_numpy/logicals.py
@@ -76,7 +76,7 @@ def all(a):  # TODO add axis functionality
         return _onp.all(a)
 
     else:
-        return _cas.logic_all(a)
+        return _cas.logic_all(a != 0)
 
 
 def any(a):  # TODO add axis functionality
@@ -89,4 +89,4 @@ def any(a):  # TODO add axis functionality
         return _onp.any(a)
 
     else:
-        return _cas.logic_any(a)
+        return _cas.logic_any(a != 0)
-- 
2.43.0


From 4f84bdc7c92709e03f976c770b6b8235a7b8d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 27/30] fix: casadi Hessian structure of a linear model has
 integer (empty) index arrays

---
 lumos/models/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 3d7f959..38676dc 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -874,8 +874,14 @@ class StateSpaceModel(Model):
             "constraints": cas.external("implicit_con", library_path),
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
-            "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            "jacobian_structure": (
+                np.array(jac_rows, dtype=int),
+                np.array(jac_cols, dtype=int),
+            ),
+            "hessian_structure": (
+                np.array(hess_rows, dtype=int),
+                np.array(hess_cols, dtype=int),
+            ),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From c2c87fed8abcad17d6b341b6d5c09a1358460f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 28/30] fix: restore the logging config when a simulation
 config is made from its dictionary

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From 4d8103ba728d34272ba2ad5fa0424a09cbe4f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 29/30] fix: do not add to the caller's list of non-cyclic
 variables in LTCConfig

---
 lumos/simulations/laptime_simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..0b00ff6 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -133,7 +133,8 @@ class LTCConfig(SimConfig):
                 logger.warning(
                     f"{name} must be non-cyclic, automatically adding it to the list."
                 )
-                self.non_cyclic_vars.append(name)
+                # A new list: the given one belongs to the caller
+                self.non_cyclic_vars = [*self.non_cyclic_vars, name]
 
 
 class LaptimeSimulation(FixedMeshOCP):
-- 
2.43.0


From d744e7da8e78c19d55597a9f5c197bd6f4de02a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:36 +0000
Subject: [PATCH 30/30] fix: leave a model its own parameters after an
 evaluation (jax tracers leaked into it)

---
 lumos/models/base.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 38676dc..a2474c6 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -583,6 +583,7 @@ class StateSpaceModel(Model):
     def _apply_and_flat_implicit(
         self, flat_vars: lnp.ndarray, mesh: float, params,
     ) -> lnp.ndarray:
+        original_params = self.get_recursive_params()
         self.set_recursive_params(params)
         # TODO: split to dict of arrays -> call in implicit with forward_with_arrays
         # -> convert to dict again, call with dict, can we simplify?
@@ -592,7 +593,12 @@ class StateSpaceModel(Model):
         # as arrays!
         dict_vars = self._split_flat_vars(flat_vars)
 
-        return self.implicit(**dict_vars, mesh=mesh)
+        try:
+            return self.implicit(**dict_vars, mesh=mesh)
+        finally:
+            # Not to leave the model with the parameters of this call (jax tracers when
+            # traced)
+            self.set_recursive_params(original_params)
 
     def _implicit_jac(self, flat_vars, mesh, params):
         raise NotImplementedError(
@@ -745,9 +751,19 @@ class StateSpaceModel(Model):
             hessian_structure=self._model_algebra_hessianstructure(),
         )
 
+        def jax_forward(_states, _inputs, _mesh, _params):
+            original_params = self.get_recursive_params()
+            try:
+                return self.apply_and_forward_with_arrays(
+                    _states, _inputs, _mesh, _params
+                )
+            finally:
+                # Not to leave the model with the tracers
+                self.set_recursive_params(original_params)
+
         # FIXME: handle batched_forward better
         self._batched_forward = lnp.use_backend("jax")(
-            jit(vmap(self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]))
+            jit(vmap(jax_forward, in_axes=[0, 0, 0, None]))
         )
 
         # FIXME: here the implicit functions are incomplete
-- 
2.43.0

