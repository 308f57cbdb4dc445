From 72a038f5e32f284e5f2dec566067789426f201cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 01/50] fix: RAMP stiffness derivative has the wrong sign on
 its p*rho term

d/drho [rho / (1 + p(1-rho))] is (denom + p*rho) / denom^2; the minus sign
made the sensitivity vanish or change sign for p > 0.
---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From d81de34ca732c5da19b5bb915b2380e8a2dd4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 02/50] fix: a run shorter than record_times no longer divides
 by zero

max_iters // record_times is 0 when max_iters < record_times (the default
record_times is 20), so the first iteration raised ZeroDivisionError.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From 3908c0179f3907bf080abd7ce97c66659fec0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 03/50] fix: LogMOC can be restarted

running_scale was only set by the update of iteration 1, so an optimizer
restarted at a later iteration raised AttributeError on its first update.
---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..36fe61a 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = None
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
@@ -220,7 +221,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
         self.running_scale = 0.2 * self.running_scale + \
-            (1.0 - 0.2) * scale if iter_num > 1 else scale
+            (1.0 - 0.2) * scale if self.running_scale is not None else scale
         logger.info(f"running_scale: {self.running_scale}")
         self._dL_buffer /= self.running_scale
 
-- 
2.43.0


From 17d66d362e630edbb9dbe46617c7805ca232d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 04/50] fix: a configuration imported from cfg.json is usable

import_from left every schedule as a plain dict, so the imported
configuration differed from the exported one and no optimizer could run it.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..92bedfb 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,10 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        # Schedules are stored as plain dicts; the optimizers need the objects.
+        for key, value in data.items():
+            if isinstance(value, dict) and "scheduler_type" in value:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From 7980c66852bc4ded3dbf52e987f9ae8c6483724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/50] fix: elasticity tasks find dirichlet_<n> boundary tags

The tag pattern was misspelt (dirichlete_), so numbered Dirichlet tags were
ignored and the task construction failed on an empty facet set.
---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..88892c6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From 0aecf5dcc460df5d384d365e2ea5bb8bb7aeca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/50] fix: assigning a single force vector keeps one load
 case

The setter stored the bare array, so n_tasks became the number of dofs; that
happened on every scale() of a single-load task (cfg.scaling=True).
---
 scikit-topt/sktopt/mesh/task_elastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 88892c6..cc2a007 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -121,7 +121,8 @@ class LinearElasticity(FEMDomain):
 
     @force.setter
     def force(self, value):
-        self.neumann_linear = value
+        self.neumann_linear = [value] if isinstance(value, np.ndarray) \
+            else value
 
     @property
     def force_elements(self):
-- 
2.43.0


From b41ea807ef6de502672a6d217b07ff0dfa63ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 07/50] fix: force_nodes and force_elements_all report the
 loaded nodes and elements

force_nodes returned element indices and force_elements_all read an attribute
that does not exist.
---
 scikit-topt/sktopt/mesh/task_elastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index cc2a007..0c10238 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -134,7 +134,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_nodes(self):
-        return self.neumann_elements
+        return self.neumann_nodes
 
     @force_nodes.setter
     def force_nodes(self, value):
@@ -261,7 +261,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_elements_all(self) -> np.ndarray:
-        return self.neumann_elements_all
+        return self.neumann_elements
 
     @classmethod
     def from_mesh_tags(
-- 
2.43.0


From c0126834c1572893f8453478b140b39c1cc3373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 08/50] fix: several Dirichlet regions of different sizes can
 be given

The per-region node and dof lists were used as if they were rectangular, so
regions with different node counts raised ValueError, and the elastic solver
received a nested list of constrained dofs.
---
 scikit-topt/sktopt/mesh/task_common.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..7e01eae 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -154,8 +154,9 @@ class FEMDomain():
                         for nodes in dirichlet_nodes
                     ]
 
-                # dirichlet_dofs = np.concatenate(dirichlet_dofs)
-                # dirichlet_nodes = np.concatenate(dirichlet_nodes)
+                if dirichlet_dir is not None:
+                    # one support made of several regions
+                    dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
                 dirichlet_dofs = dofs.all() if dirichlet_dir == 'all' \
@@ -164,7 +165,7 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
@@ -231,7 +232,11 @@ class FEMDomain():
         dirichlet_neumann_elements = np.concatenate(valid) \
             if len(valid) > 0 else np.array([], dtype=int)
 
-        free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
+        free_dofs = setdiff1d(
+            np.arange(basis.N),
+            np.concatenate(dirichlet_dofs)
+            if isinstance(dirichlet_dofs, list) else dirichlet_dofs
+        )
         free_elements = utils.get_elements_by_nodes(
             basis.mesh, [free_dofs]
         )
-- 
2.43.0


From c35fca9f28a12c31e18f3a9fba588817d74be9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 09/50] fix: get_elements_by_nodes no longer answers from
 another mesh's cache

The node-to-element table was cached under id(mesh); a mesh allocated where a
collected one used to be got the elements of the old mesh.
---
 scikit-topt/sktopt/mesh/utils.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..3613912 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -198,34 +198,15 @@ def get_elements_by_nodes(
         include any of the target nodes.
     """
 
-    # Initialize cache once
-    if not hasattr(get_elements_by_nodes, "_cache"):
-        get_elements_by_nodes._cache = {}
-
-    mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
-        # Build: node index → set of element indices
-        node_to_elements = defaultdict(set)
-        # mesh.t.T: shape = (n_elements, nodes_per_element)
-        for e, nodes in enumerate(mesh.t.T):
-            for n in nodes:
-                node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
-
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
-
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
         all_target_nodes = np.unique(target_nodes)
     else:
         all_target_nodes = np.unique(np.concatenate(target_nodes))
 
-    # Accumulate matching element indices
-    elems = set()
-    for node in all_target_nodes:
-        elems.update(node_to_elements.get(node, []))
-
-    return np.ascontiguousarray(np.array(sorted(elems), dtype=np.int32))
+    # An element matches when any of its nodes is a target
+    elems = np.nonzero(np.isin(mesh.t, all_target_nodes).any(axis=0))[0]
+    return np.ascontiguousarray(elems.astype(np.int32))
 
 
 def build_element_adjacency_matrix_fast(mesh):
-- 
2.43.0


From 9e8cc3d9307ab4a2e3b6b2d5ca872b3f8f9f1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 10/50] fix: free_elements are found from the nodes of the free
 dofs

Dof numbers were used as node numbers, which is wrong for vector-valued bases.
---
 scikit-topt/sktopt/mesh/task_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 7e01eae..ef5ffbd 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -237,8 +237,11 @@ class FEMDomain():
             np.concatenate(dirichlet_dofs)
             if isinstance(dirichlet_dofs, list) else dirichlet_dofs
         )
+        free_nodes = np.nonzero(
+            np.isin(basis.nodal_dofs, free_dofs).any(axis=0)
+        )[0]
         free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
+            basis.mesh, [free_nodes]
         )
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
-- 
2.43.0


From 36863896fcbe66ea70ca2e865fa622884a176f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 11/50] fix: excluding Dirichlet elements from the design makes
 them fixed elements

They were in neither set afterwards, so design and fixed elements no longer
covered the mesh.
---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index ef5ffbd..4e57746 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -407,6 +407,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From cab22ebe53c352c654f27631d47f3dd7f63983c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 12/50] fix: condition.vtu colours only the nodes of boundaries
 that exist

Indexing with None coloured every node (all of them 3 for an elasticity task),
and several Dirichlet regions of different sizes raised.
---
 scikit-topt/sktopt/mesh/task_common.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 4e57746..8a167b9 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -380,9 +380,17 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for color, nodes in (
+            (1, self.neumann_nodes_all),
+            (2, self.dirichlet_nodes),
+            (3, self.robin_nodes),
+        ):
+            # None (no such boundary) would index, and colour, every node
+            if nodes is None:
+                continue
+            if isinstance(nodes, list):
+                nodes = np.concatenate(nodes)
+            node_colors_df[nodes] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From e255f0325a09d4585818da73ea6da576427dd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 13/50] fix: design_dirichlet no longer turns a heat design
 solid

Heat tasks have neumann_elements = None, and rho[None] = 1.0 sets every
density to 1 at the start and after every update.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 92bedfb..7ae7a79 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -742,7 +742,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1133,7 +1134,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From e0104f655eeaa847418f14a8413094b6932800bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 14/50] fix: heat load cases with different Dirichlet sets use
 their own matrix

Every load case was solved with the matrix enforced for the first one, so the
others violated their boundary condition and the maximum principle.
---
 scikit-topt/sktopt/fea/solver_heat.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..7d3d6b4 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -156,6 +156,19 @@ def solve_heat_system_multi(
         return K_csr
 
     D0 = dirichlet_dofs_list[0]
+    if any(
+        not np.array_equal(D_i.all(), D0.all())
+        for D_i in dirichlet_dofs_list[1:n_loads]
+    ):
+        # The enforced matrix depends on the constrained dofs.
+        for i in range(n_loads):
+            K_e = solve_heat_system_multi(
+                K_csr, emit,
+                dirichlet_dofs_list[i:i + 1], dirichlet_values_list[i:i + 1],
+                u_all[:, i:i + 1], solver_config,
+            )
+        return K_e
+
     val0 = dirichlet_values_list[0]
     K_e, _ = skfem.enforce(
         K_csr,
-- 
2.43.0


From 6bb0138f107f38d7802ab05948e5d5c11d5fd76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 15/50] fix: heat sensitivities follow the chosen interpolation

The SIMP derivative was used for RAMP as well.
---
 scikit-topt/sktopt/fea/solver_heat.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 7d3d6b4..0e6e6ad 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -952,10 +952,13 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
-        for i in range(n_loads):
-            from sktopt.core import derivatives
+        from sktopt.core import derivatives
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+        dC_drho_func = derivatives.dC_drho_simp
+        if self.density_interpolation is composer.ramp_interpolation:
+            dC_drho_func = derivatives.dC_drho_ramp
+        for i in range(n_loads):
+            grad_all[:, i] = dC_drho_func(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From 94667090831dfd41bb09ea584dec628e18d5379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 16/50] fix: the multi-load wrappers in fea.solver can be
 called

They passed n_joblib to functions that no longer take it (TypeError).
---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From 49b1f5549c667d58d2f1fc0722b99f08c5d851f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 17/50] fix: hexahedron volumes

The tetrahedra were those of another node order than scikit-fem's and overlap:
a box element got 5/6 of its volume, distorted ones anything from 0.67 to 1.04,
which weights the volume constraint and the filters wrongly. Integrate the
trilinear map exactly instead.
---
 scikit-topt/sktopt/fea/composer.py | 120 ++++++++++-------------------
 1 file changed, 40 insertions(+), 80 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..e13d2f4 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -188,62 +188,59 @@ def _tet_volume_numba(p0, p1, p2, p3):
     return abs(np.dot(np.cross(v1, v2), v3)) / 6.0
 
 
+@njit
+def _hex_volume_numba(p_coords, n):
+    """
+    Volume of one trilinear hexahedron in scikit-fem's node order.
+
+    Nodes 1, 2, 3 are the neighbours of node 0; 4, 5, 6 lie opposite to it on
+    the faces (1, 2), (1, 3), (2, 3) and 7 on the body diagonal. The Jacobian
+    determinant has degree 2 per direction: 2x2x2 Gauss points are exact.
+    """
+    p0, p1, p2, p3 = (
+        p_coords[:, n[0]], p_coords[:, n[1]],
+        p_coords[:, n[2]], p_coords[:, n[3]]
+    )
+    p4, p5, p6, p7 = (
+        p_coords[:, n[4]], p_coords[:, n[5]],
+        p_coords[:, n[6]], p_coords[:, n[7]]
+    )
+    g = 0.5 / np.sqrt(3.0)
+    vol = 0.0
+    for r in (0.5 - g, 0.5 + g):
+        for s in (0.5 - g, 0.5 + g):
+            for t in (0.5 - g, 0.5 + g):
+                d1 = (1 - s) * (1 - t) * (p1 - p0) + s * (1 - t) * (p4 - p2) \
+                    + (1 - s) * t * (p5 - p3) + s * t * (p7 - p6)
+                d2 = (1 - r) * (1 - t) * (p2 - p0) + r * (1 - t) * (p4 - p1) \
+                    + (1 - r) * t * (p6 - p3) + r * t * (p7 - p5)
+                d3 = (1 - r) * (1 - s) * (p3 - p0) + r * (1 - s) * (p5 - p1) \
+                    + (1 - r) * s * (p6 - p2) + r * s * (p7 - p4)
+                vol += np.dot(np.cross(d1, d2), d3) / 8.0
+    return abs(vol)
+
+
 def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements.
 
     Parameters
     ----------
     t_conn : (8, n_elem) int
-        Hexahedral element connectivity
+        Hexahedral element connectivity (node order of scikit-fem)
     p_coords : (3, n_nodes) float
         Node coordinates
 
     Returns
     -------
     elements_volume : (n_elem,) float
-        Approximate volumes
+        Volumes
     """
     n_elements = t_conn.shape[1]
     elements_volume = np.zeros(n_elements)
 
     for e in prange(n_elements):
-        n = t_conn[:, e]
-
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
-        vol = 0.0
-        vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
-        )
-
-        elements_volume[e] = vol
+        elements_volume[e] = _hex_volume_numba(p_coords, t_conn[:, e])
 
     return elements_volume
 
@@ -251,62 +248,25 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
 @njit(parallel=True)
 def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements.
 
     Parameters
     ----------
     t_conn : (8, n_elem) int
-        Hexahedral element connectivity
+        Hexahedral element connectivity (node order of scikit-fem)
     p_coords : (3, n_nodes) float
         Node coordinates
 
     Returns
     -------
     elements_volume : (n_elem,) float
-        Approximate volumes
+        Volumes
     """
     n_elements = t_conn.shape[1]
     elements_volume = np.zeros(n_elements)
 
     for e in prange(n_elements):
-        n = t_conn[:, e]
-
-        # Tetra 6 division
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
-
-        vol = 0.0
-        vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
-        )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
-        )
-
-        elements_volume[e] = vol
+        elements_volume[e] = _hex_volume_numba(p_coords, t_conn[:, e])
 
     return elements_volume
 
-- 
2.43.0


From 15fe9b637449cd9bc6ef349e4c4fa6deb8859124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 18/50] fix: re-orienting a hexahedron keeps it a hexahedron

Only nodes 1 and 3 were exchanged, which tangles the element; in scikit-fem's
node order the face nodes 4 and 6 have to follow.
---
 scikit-topt/sktopt/mesh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 3613912..3d7e9ad 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -48,8 +48,10 @@ def fix_hexahedron_orientation(t, p):
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Mirror the element: exchange the edge neighbours 1 and 3 of
+            # node 0 together with the face nodes 4 (1, 2) and 6 (2, 3).
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From 5b80bb8e02e91a21981a851e21559c447dea32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 19/50] fix: exported hexahedral meshes use VTK's node order

The VTU files carried scikit-fem's order, in which VTK reads self-intersecting
cells of volume 0.
---
 scikit-topt/sktopt/core/visualization.py |  3 ++-
 scikit-topt/sktopt/mesh/task_common.py   |  2 +-
 scikit-topt/sktopt/mesh/utils.py         | 11 +++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index e9bdee3..1c22480 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -8,6 +8,7 @@ import imageio.v2 as imageio
 import skfem
 import meshio
 import matplotlib.pyplot as plt
+from sktopt.mesh import utils
 
 
 class XvfbWarning(UserWarning):
@@ -77,7 +78,7 @@ def export_mesh_with_info(
     # Build and write meshio.Mesh
     meshio_mesh = meshio.Mesh(
         points=points,
-        cells=[meshio.CellBlock(cell_type, mesh.t.T)],
+        cells=[meshio.CellBlock(cell_type, utils.cells_in_vtk_order(mesh))],
         point_data=point_data,
         cell_data=cell_data
     )
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8a167b9..a792569 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -399,7 +399,7 @@ class FEMDomain():
         element_colors_df[self.free_elements] = 1
         element_colors_df[self.fixed_elements] = 2
         element_colors_df[self.design_elements] = 3
-        cells = [(cell_type, mesh.t.T)]
+        cells = [(cell_type, utils.cells_in_vtk_order(mesh))]
         cell_outputs = dict()
         cell_outputs["condition"] = [element_colors_df]
 
diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 3d7e9ad..5ddd8cc 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -15,6 +15,17 @@ def get_points_in_range(x_rng, y_rng, z_rng):
     return in_range
 
 
+def cells_in_vtk_order(mesh):
+    """
+    Element connectivity (n_elem, n_nodes) in the node order of VTK/meshio.
+
+    scikit-fem numbers the nodes of a hexahedron differently.
+    """
+    if isinstance(mesh, skfem.MeshHex):
+        return mesh.t[[0, 3, 6, 2, 1, 5, 7, 4]].T
+    return mesh.t.T
+
+
 def fix_hexahedron_orientation(t, p):
     """
     Ensures that each hexahedral element in the mesh has positive volume
-- 
2.43.0


From be5ef0053112c1a574bc8083a574248c7caa3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 20/50] fix: a fresh run clears the snapshots of the run it
 replaces

Only mesh_rho was cleared. A shorter run in a used dst_path left the old,
later-numbered data/*-rho.npz (and histories.npz) behind, and a restart then
resumed from the wrong run.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 7ae7a79..cf82ce1 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -558,6 +558,12 @@ class DensityMethod(DensityMethodBase):
             os.makedirs(f"{self.cfg.dst_path}/mesh_rho")
             if not os.path.exists(f"{self.cfg.dst_path}/data"):
                 os.makedirs(f"{self.cfg.dst_path}/data")
+            # A later restart must not resume from an earlier run's snapshots.
+            for fname in os.listdir(f"{self.cfg.dst_path}/data"):
+                if fname.endswith("-rho.npz"):
+                    os.remove(f"{self.cfg.dst_path}/data/{fname}")
+            if os.path.exists(f"{self.cfg.dst_path}/histories.npz"):
+                os.remove(f"{self.cfg.dst_path}/histories.npz")
 
         if isinstance(tsk, sktopt.mesh.LinearElasticity):
             self.fem = fea.FEM_SimpLinearElasticity(
-- 
2.43.0


From fd132acc63d499e9f75da2b121e38234e9c5f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 21/50] fix: histories survive a restart with one entry per
 iteration

histories.npz was written only when a run completed, so an interrupted run lost
its histories, and restarting from an earlier snapshot appended the redone
iterations after the old entries.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index cf82ce1..1813ed6 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -740,6 +740,9 @@ class DensityMethod(DensityMethodBase):
                 iter_begin = iter_num + 1
             iter_end = cfg.max_iters + 1
             self.recorder.import_histories()
+            # Entries after the snapshot belong to iterations to be redone.
+            for history in self.recorder.histories.values():
+                del history.data[iter_begin - 1:]
             rho[tsk.design_elements] = data["rho_design_elements"]
             del data
         else:
@@ -1239,6 +1242,8 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
+                    # before the snapshot, so that a restart from it finds them
+                    self.recorder.export_histories(fname="histories.npz")
                     np.savez_compressed(
                         f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
                         rho_design_elements=rho[tsk.design_elements]
-- 
2.43.0


From f9206580a7ff2160bea0d520fa0e6e0865e396b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 22/50] fix: snapshots and histories are replaced atomically

A run killed while writing left a truncated file that the next restart picked
as the latest snapshot and failed on.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 7 ++++++-
 scikit-topt/sktopt/tools/history.py                  | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 1813ed6..3629af8 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1244,10 +1244,15 @@ class DensityMethod(DensityMethodBase):
                         )
                     # before the snapshot, so that a restart from it finds them
                     self.recorder.export_histories(fname="histories.npz")
+                    fname = f"{str(iter_num).zfill(6)}-rho.npz"
                     np.savez_compressed(
-                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
+                        f"{cfg.dst_path}/data/tmp-{fname}",
                         rho_design_elements=rho[tsk.design_elements]
                     )
+                    os.replace(
+                        f"{cfg.dst_path}/data/tmp-{fname}",
+                        f"{cfg.dst_path}/data/{fname}"
+                    )
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..8afa026 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -598,7 +598,10 @@ class HistoryCollection():
             return
 
         path = os.path.join(self.dst_path, fname)
-        np.savez(path, **histories)
+        tmp_path = os.path.join(self.dst_path, f"tmp-{fname}")
+        with open(tmp_path, "wb") as f:
+            np.savez(f, **histories)
+        os.replace(tmp_path, path)
 
         # import copy
         # before_histories = copy.deepcopy(self.histories)
-- 
2.43.0


From 89dc64b41c78833804820bdb4756857512c3f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 23/50] fix: a restart continues the run it resumes

The running sensitivity scale and LogMOC's multiplier were reset to their
initial values, so a restarted run took other steps than the uninterrupted one.
They are stored with the snapshot now.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 12 +++++++++++-
 scikit-topt/sktopt/core/optimizers/logmoc.py         |  2 ++
 scikit-topt/sktopt/core/optimizers/oc.py             |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 3629af8..842b3dc 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -532,6 +532,9 @@ class DensityMethod(DensityMethodBase):
         ``beta``, ``move_limit``, ``percentile``, and ``filter_radius``.
     """
 
+    # attributes that rho_update carries from one iteration to the next
+    _update_memory: tuple[str, ...] = ()
+
     def __init__(
         self,
         cfg: DensityMethodConfig,
@@ -744,6 +747,9 @@ class DensityMethod(DensityMethodBase):
             for history in self.recorder.histories.values():
                 del history.data[iter_begin - 1:]
             rho[tsk.design_elements] = data["rho_design_elements"]
+            for name in self._update_memory:
+                if name in data:
+                    setattr(self, name, float(data[name]))
             del data
         else:
             rho += val_init
@@ -1247,7 +1253,11 @@ class DensityMethod(DensityMethodBase):
                     fname = f"{str(iter_num).zfill(6)}-rho.npz"
                     np.savez_compressed(
                         f"{cfg.dst_path}/data/tmp-{fname}",
-                        rho_design_elements=rho[tsk.design_elements]
+                        rho_design_elements=rho[tsk.design_elements],
+                        **{
+                            name: getattr(self, name)
+                            for name in self._update_memory
+                        }
                     )
                     os.replace(
                         f"{cfg.dst_path}/data/tmp-{fname}",
diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index 36fe61a..c1a72d2 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -67,6 +67,8 @@ def lagrangian_log_update(
 
 
 class LogMOC_Optimizer(common_density.DensityMethod):
+    _update_memory = ("running_scale", "lambda_v")
+
     def __init__(
         self,
         cfg: LogMOC_Config,
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..1d2de49 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -109,6 +109,8 @@ class OC_Config(common_density.DensityMethod_OC_Config):
 
 
 class OC_Optimizer(common_density.DensityMethod):
+    _update_memory = ("running_scale",)
+
     def __init__(
         self,
         cfg: OC_Config,
-- 
2.43.0


From 1b4d4bf13987eb34a3e7e0b72183df6892bd3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 24/50] fix: histories without data survive an export

export_histories reloads the file it wrote, which dropped every history that
had not been fed yet; feeding it later raised KeyError.
---
 scikit-topt/sktopt/tools/history.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 8afa026..8ced2c9 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -686,6 +686,11 @@ class HistoryCollection():
                     data=data_list
                 )
 
+        # Histories that have not been fed yet are not in the file: keep them
+        for name, hist in self.histories.items():
+            if name not in new_histories and not hist.exists():
+                new_histories[name] = hist
+
         # Replace histories with updated ones
         self.histories = new_histories
 
-- 
2.43.0


From f7f2440b89b54824cc5940ac5df713f1d84a4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 25/50] fix: an iterative solve that does not converge is not
 used silently

With solver='auto' it falls back to the direct solver, as it already did for
every other failure of the iterative one; otherwise it is logged.
---
 scikit-topt/sktopt/fea/solver_elastic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..484fcb9 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -134,6 +134,12 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
+        if chosen_solver in ('cg_jacobi', 'cg_pyamg') and info != 0:
+            message = f"{chosen_solver} did not converge (info={info})"
+            if allow_fallback_to_spsolve:
+                raise RuntimeError(message)
+            logger.warning(message)
+
     except Exception as e:
         if not allow_fallback_to_spsolve:
             raise
-- 
2.43.0


From 77dd57ff558bff41d6b225afc21e06b77f130b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 26/50] fix: tetrahedral meshes read from a file are oriented

---
 scikit-topt/sktopt/mesh/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index f8ebe7e..2696015 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -23,7 +23,7 @@ def basis_from_file(
     else:
         raise ValueError(f"Unsupported cell types: {cell_types}")
 
-    if hasattr(mesh_skfem, "mesh_skfem"):
+    if hasattr(mesh_skfem, "oriented"):
         mesh_skfem = mesh_skfem.oriented()
 
     basis = skfem.Basis(
-- 
2.43.0


From 1b847dc6da2c5a93ca8204f909144e4627abe8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 27/50] fix: load_stiffness_matrix converts E and nu to the
 Lame parameters

---
 scikit-topt/sktopt/mesh/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index 2696015..6314da3 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -3,7 +3,7 @@ import numpy as np
 
 import meshio
 import skfem
-from skfem.models.elasticity import linear_elasticity
+from skfem.models.elasticity import lame_parameters, linear_elasticity
 
 
 def basis_from_file(
@@ -39,7 +39,9 @@ def load_stiffness_matrix(
     nu: float = 0.3
 ) -> np.ndarray:
     basis = basis_from_file(mesh_path)
-    stiffness_mat = skfem.asm(linear_elasticity(E, nu), basis)
+    stiffness_mat = skfem.asm(
+        linear_elasticity(*lame_parameters(E, nu)), basis
+    )
     return stiffness_mat
 
 
-- 
2.43.0


From 504153726f12781e02325e564e2c1111ef6773da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 28/50] fix: heat tasks accept a single dirichlet tag

---
 scikit-topt/sktopt/mesh/task_heat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..614f255 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -276,7 +276,7 @@ class LinearHeatConduction(FEMDomain):
                 basis.mesh.boundaries[k] for k in dirichlet_keys
             ]
         elif "dirichlet" in keys:
-            dirichlet_facets_ids = basis.mesh.boundaries["dirichlet"]
+            dirichlet_facets_ids = [basis.mesh.boundaries["dirichlet"]]
         else:
             dirichlet_facets_ids = None
 
-- 
2.43.0


From 2110240b010ee42ee7f91be8628d6bd13279a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 29/50] fix: OC densities stay finite where a sensitivity is
 positive

np.power of a negative scaling rate is NaN, which spread through the
density filter to the whole design (heat problems with a film boundary).
---
 scikit-topt/sktopt/core/optimizers/oc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 1d2de49..bdbe946 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -50,6 +50,8 @@ def bisection_with_physical_volume(
     while True:
         np.negative(dC, out=scaling_rate)
         scaling_rate /= (lmid + eps)
+        # a positive sensitivity has no real power: the element shrinks
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
             scaling_rate, scaling_rate_min, scaling_rate_max,
-- 
2.43.0


From d2cc75878e3ed19932b2f8f0327c112c9487b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 30/50] fix: sensitivities are filtered without the solid value
 of the density filter

The Helmholtz density filter holds the value 1 outside the design domain;
filtering a sensitivity with it mixed that 1 into the design elements.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 7 ++++++-
 scikit-topt/sktopt/core/optimizers/logmoc.py         | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 842b3dc..e4d5cca 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -937,6 +937,11 @@ class DensityMethod(DensityMethodBase):
             self._iter_end = iter_end
         return True
 
+    def _filter_sensitivity(self, dC: np.ndarray) -> np.ndarray:
+        # The density filter may hold a solid value outside the design domain
+        # (Helmholtz); only its linear part applies to a sensitivity.
+        return self.filter.forward(dC) - self.filter.forward(np.zeros_like(dC))
+
     def _timed_section(self, name: str):
         return self.timer.section(name)
 
@@ -1122,7 +1127,7 @@ class DensityMethod(DensityMethodBase):
             if cfg.sensitivity_filter:
                 logger.info("--- sensitivity filter ---")
                 with self._timed_section("sensitivity_filter"):
-                    filtered = self.filter.forward(dC_drho_full)
+                    filtered = self._filter_sensitivity(dC_drho_full)
                     np.copyto(dC_drho_full, filtered)
 
             dC_drho_design_eles[:] = dC_drho_full[tsk.design_elements]
diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index c1a72d2..4fee9f2 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -153,7 +153,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             # destroys the volume-constraint adjoint for positive test fields.
             # The filter operator is self-adjoint in this setting, so falling
             # back to the forward application preserves the intended chain.
-            dV_backprop = self.filter.forward(self._dV_filtered_full)
+            dV_backprop = self._filter_sensitivity(self._dV_filtered_full)
         np.copyto(self._dV_projected_full, dV_backprop)
         np.copyto(
             self._dV_chain_design,
@@ -209,7 +209,9 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         if cfg.filter_lagrangian:
             np.copyto(self._dL_full, 0.0)
             self._dL_full[tsk.design_elements] = self._dL_buffer
-            np.copyto(self._dL_full, self.filter.forward(self._dL_full))
+            np.copyto(
+                self._dL_full, self._filter_sensitivity(self._dL_full)
+            )
             np.copyto(self._dL_buffer, self._dL_full[tsk.design_elements])
         if cfg.center_lagrangian:
             dL_mean = np.sum(
-- 
2.43.0


From 83d3a940b77a2fa42e563a40280b72fa2ea2c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 31/50] fix: a finished run leaves its files alone when asked
 for more steps

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index e4d5cca..46f05a8 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -991,10 +991,10 @@ class DensityMethod(DensityMethodBase):
     def _optimize_impl(self, max_steps: int | None = None):
         tsk = self.tsk
         cfg = self.cfg
-        tsk.export_analysis_condition_on_mesh(cfg.dst_path)
-        logger.info(f"dst_path : {cfg.dst_path}")
         if not self._ensure_state_initialized():
             return
+        tsk.export_analysis_condition_on_mesh(cfg.dst_path)
+        logger.info(f"dst_path : {cfg.dst_path}")
         density_interpolation, dC_drho_func = interpolation_funcs(cfg)
         state = self._state
         assert state is not None
-- 
2.43.0


From 988ad2f56915d414dc63cdbe9fde851019b9f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 32/50] fix: only snapshots are taken for snapshots when
 looking for the latest

---
 scikit-topt/sktopt/core/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..db80a98 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -6,12 +6,12 @@ from sktopt import tools
 
 
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
     max_iter = -1
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From a225c5b4732ffe6eac0d231234d543ed041dc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 33/50] fix: clearing old snapshots leaves other files in the
 data folder

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 46f05a8..dd6bbb4 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -4,6 +4,7 @@ from dataclasses import dataclass, field
 from dataclasses import asdict
 from typing import Literal
 import inspect
+import re
 import shutil
 import json
 
@@ -563,7 +564,7 @@ class DensityMethod(DensityMethodBase):
                 os.makedirs(f"{self.cfg.dst_path}/data")
             # A later restart must not resume from an earlier run's snapshots.
             for fname in os.listdir(f"{self.cfg.dst_path}/data"):
-                if fname.endswith("-rho.npz"):
+                if re.fullmatch(r"(tmp-)?\d{6,}-rho\.npz", fname):
                     os.remove(f"{self.cfg.dst_path}/data/{fname}")
             if os.path.exists(f"{self.cfg.dst_path}/histories.npz"):
                 os.remove(f"{self.cfg.dst_path}/histories.npz")
-- 
2.43.0


From 2429bfa2a7449208578e1936b8a062b8bf9d12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 34/50] fix: tetrahedra of negative volume are refused in every
 unit of length

---
 scikit-topt/sktopt/fea/composer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index e13d2f4..4a4d13e 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -172,7 +172,9 @@ def _get_elements_volume_tet(t_conn, p_coords) -> np.ndarray:
         v3 = p_coords[:, n3] - p_coords[:, n0]
         vol = np.dot(np.cross(v1, v2), v3) / 6.0
 
-        if vol < -1e-12:
+        # relative to the edges: meshes may be in any unit of length
+        size = np.sqrt(np.dot(v1, v1) * np.dot(v2, v2) * np.dot(v3, v3))
+        if vol < -1e-12 * size:
             print("Element", e, "has negative volume:", vol)
             raise ValueError("!!!")
         elements_volume[e] = vol
-- 
2.43.0


From 14abfd6f9796dc1edd40b2291f377e0e1cc74b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 35/50] fix: fix_tetrahedron_orientation_numba compiles

---
 scikit-topt/sktopt/mesh/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 5ddd8cc..b25f069 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -126,16 +126,17 @@ def fix_tetrahedron_orientation_numba(t, p):
         tetrahedron is adjusted (if needed) to ensure positive volume.
     """
 
-    t_fixed = np.array(t, copy=True)
+    t_fixed = t.copy()
     n_elem = t.shape[1]
     for e in prange(n_elem):
-        n0, n1, n2, n3 = t_fixed[:, e]
+        n0, n1, n2, n3 = t[0, e], t[1, e], t[2, e], t[3, e]
         v1 = p[:, n1] - p[:, n0]
         v2 = p[:, n2] - p[:, n0]
         v3 = p[:, n3] - p[:, n0]
         vol = np.dot(np.cross(v1, v2), v3) / 6.0
         if vol < 0:
-            t_fixed[1, e], t_fixed[2, e] = t_fixed[2, e], t_fixed[1, e]
+            t_fixed[1, e] = n2
+            t_fixed[2, e] = n1
 
     return t_fixed
 
-- 
2.43.0


From 51d4fb2b8b22bb7d9d696cd383799b5e4e18b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 36/50] fix: nodal densities of the heat solver average the
 elements around each node

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 0e6e6ad..7d04775 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -620,7 +620,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -745,7 +745,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index 614f255..4d8f788 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From 2faf804483e8edae8b0aac5d60995600f5ac9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 37/50] fix: command lines without continuation steps run with
 constant settings

---
 scikit-topt/sktopt/core/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index db80a98..158bb04 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -181,9 +181,14 @@ def args2OC_Config_dict(args) -> dict:
         else:
             stype = "Step"
 
+        init_value = args[f"{keyw}_init"]
+        if stype != "None" and args[f"{keyw}_step"] is None:
+            # no continuation requested
+            stype, init_value = "Constant", None
+
         ret[keyw] = tools.SchedulerConfig.from_defaults(
             name=keyw,
-            init_value=args[f"{keyw}_init"],
+            init_value=init_value,
             target_value=args[keyw],
             num_steps=args[f"{keyw}_step"],
             curvature=curvature,
-- 
2.43.0


From 0715973c5d1cdba6332d6e0c59a0e10b5eaadfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 38/50] fix: --eta_init and --eta_step reach the update
 exponent

---
 scikit-topt/sktopt/core/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index 158bb04..ef66fa1 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -165,8 +165,9 @@ def args2OC_Config_dict(args) -> dict:
     keyw_schedulers = [
         "filter_radius", "move_limit", "vol_frac",
         "p", "beta", "percentile",
-        # "eta"
     ]
+    if "eta_step" in args:
+        keyw_schedulers.append("eta")
     for keyw in keyw_schedulers:
         curvature = args["beta_curvature"] if keyw == "beta" else None
         if keyw == "move_limit":
-- 
2.43.0


From 3122e26faa96b8ddd58b31e4a4e19790ea13b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 39/50] fix: scaling a problem keeps its quadrature rule

The basis was rebuilt with the default rule, so the stiffness of warped
hexahedra, and with it the compliance, changed with the units.
---
 scikit-topt/sktopt/mesh/task_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index a792569..813c834 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -429,7 +429,10 @@ class FEMDomain():
         mesh = self.basis.mesh
         p_scaled = mesh.p * L_scale
         mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
+        basis_scaled = skfem.Basis(
+            mesh_scaled, self.basis.elem,
+            quadrature=(self.basis.X, self.basis.W)
+        )
         self.basis = basis_scaled
 
         if isinstance(self.force, np.ndarray):
-- 
2.43.0


From ea1a32c4ff94df6aa57dbf1cc8fc6ac939276c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 40/50] fix: a run that ends without any element above the
 threshold finishes

export_submesh raised on an empty selection, so low volume fractions could
fail at their very end.
---
 scikit-topt/sktopt/mesh/visualization.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/visualization.py b/scikit-topt/sktopt/mesh/visualization.py
index 0b1b51a..3e81643 100644
--- a/scikit-topt/sktopt/mesh/visualization.py
+++ b/scikit-topt/sktopt/mesh/visualization.py
@@ -1,5 +1,10 @@
+import pathlib
+
 import numpy as np
 import sktopt
+from sktopt.tools.logconf import mylogger
+
+logger = mylogger(__name__)
 
 
 def setdiff1d(a, b):
@@ -21,6 +26,11 @@ def export_submesh(
     kept_elements = setdiff1d(
         tsk.all_elements, remove_elements
     )
+    if kept_elements.size == 0:
+        # A mesh without elements can not be written
+        logger.warning(f"No element exceeds {threshold}: no {dst_path}")
+        pathlib.Path(dst_path).unlink(missing_ok=True)
+        return
     kept_t = mesh.t[:, kept_elements]
     unique_vertex_indices = np.unique(kept_t)
     new_points = np.ascontiguousarray(mesh.p[:, unique_vertex_indices])
-- 
2.43.0


From ddc32d906706dc9b9bd0be7726662bd882b854f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 41/50] fix: stress_tensor_skfem returns the stress at the
 quadrature points, not its volume integral

---
 scikit-topt/sktopt/fea/composer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 4a4d13e..af1d8b9 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -442,13 +442,11 @@ def stress_tensor_skfem(
     lam_elem = np.tile(lam_elem, (n_qp, 1))  # shape: (n_qp, n_elements)
     mu_elem = np.tile(mu_elem, (n_qp, 1))
 
-    stress_tensor = compute_element_stress_tensor.elemental(
-        basis,
-        uh=uh,
-        # uh=u,
-        lam_elem=lam_elem, mu_elem=mu_elem
+    # Evaluate at the quadrature points (no integration over the elements).
+    stress_tensor = compute_element_stress_tensor.form(
+        {"uh": uh, "lam_elem": lam_elem, "mu_elem": mu_elem}
     )
-    return stress_tensor  # shape: (n_elem, n_qp, 3, 3)
+    return stress_tensor  # shape: (3, 3, n_elem, n_qp)
 
 
 def von_mises_from_stress_tensor(stress_tensor: np.ndarray) -> np.ndarray:
-- 
2.43.0


From fcbbd4cdbc5d869379eac65800615920bce95cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 42/50] fix: timing bar chart keeps sections with equal leaf
 names apart

---
 scikit-topt/sktopt/tools/timer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..5cec171 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -364,6 +364,9 @@ class SectionTimer:
             return (fig or ax.figure), ax
 
         names = [s.name for s in stats]
+        data = [metric_map[value](s) for s in stats]
+        if moving_average:
+            data = self._update_running_average(names, data)
         fmt_nested = self._hierarchical if format_nested is None else format_nested
         if fmt_nested:
             indent = "  "
@@ -371,9 +374,6 @@ class SectionTimer:
                 f"{indent * name.count(self._sep)}{name.split(self._sep)[-1]}"
                 for name in names
             ]
-        data = [metric_map[value](s) for s in stats]
-        if moving_average:
-            data = self._update_running_average(names, data)
 
         fig = None
         if ax is None:
@@ -383,7 +383,10 @@ class SectionTimer:
             fig = Figure(figsize=(6, 0.4 * len(stats) + 1))
             ax = fig.add_subplot(111)
 
-        ax.barh(names, data, color=color)
+        # One bar per section, even where shortened labels coincide.
+        ax.barh(range(len(names)), data, color=color)
+        ax.set_yticks(range(len(names)))
+        ax.set_yticklabels(names)
         ax.set_xlabel(f"{value} [s]" if value in ("total", "avg", "max") else value)
         ax.set_title("Section timing")
         ax.invert_yaxis()
-- 
2.43.0


From 1777d3673a28af094b8bbeb8097c697a190c820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 43/50] fix: pull and pull_2 toy tasks use plain coordinate
 ranges

---
 scikit-topt/sktopt/mesh/toy_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/toy_problem.py b/scikit-topt/sktopt/mesh/toy_problem.py
index 30482a8..d7c76d5 100644
--- a/scikit-topt/sktopt/mesh/toy_problem.py
+++ b/scikit-topt/sktopt/mesh/toy_problem.py
@@ -221,14 +221,14 @@ def toy_msh(
         force_value = -800
 
     elif task_elastic_name == "pull":
-        x_range = (x_len-eps, x_len+0.05),
+        x_range = (x_len-eps, x_len+0.05)
         y_range = (y_len*2/5, y_len*3/5)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 1200.0
     elif task_elastic_name == "pull_2":
-        x_range = (x_len-eps, x_len+0.05),
-        y_range = (y_len/2.0-eps, y_len/2+eps),
+        x_range = (x_len-eps, x_len+0.05)
+        y_range = (y_len/2.0-eps, y_len/2+eps)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 200.0
-- 
2.43.0


From 406e8d62d5906f492d5ecf78aae15b18a3fafc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 44/50] fix: restarting a run that had converged does not go on
 past its end

---
 .../sktopt/core/optimizers/common_density.py     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index dd6bbb4..d84c450 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -752,6 +752,8 @@ class DensityMethod(DensityMethodBase):
                 if name in data:
                     setattr(self, name, float(data[name]))
             del data
+            if cfg.check_convergence and self._converged_at(iter_begin - 1):
+                iter_end = iter_begin
         else:
             rho += val_init
             np.clip(rho, cfg.rho_min, cfg.rho_max, out=rho)
@@ -765,6 +767,20 @@ class DensityMethod(DensityMethodBase):
         rho[tsk.fixed_elements] = 1.0
         return rho, iter_begin, iter_end
 
+    def _converged_at(self, iter_num: int) -> bool:
+        """Whether the recorded iteration had met both convergence criteria."""
+        rho_change = self.recorder.histories["rho_change_max"].data
+        kkt = self.recorder.histories["kkt_residual"].data
+        if iter_num < 1 or min(len(rho_change), len(kkt)) < iter_num:
+            return False
+        return bool(
+            rho_change[iter_num - 1] < self.cfg.tol_rho_change
+            and (
+                not np.isfinite(kkt[iter_num - 1])
+                or abs(kkt[iter_num - 1]) < self.cfg.tol_kkt_residual
+            )
+        )
+
     def initialize_params(self):
         """
         Initialize parameters and preallocate work arrays for density-based topology
-- 
2.43.0


From 752835ff1c0f4284440b9e54d4d489eb7a972996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 45/50] fix: announce PETSc solves that did not converge, and
 fall back where allowed

---
 scikit-topt/sktopt/fea/solver_elastic.py | 8 +++++++-
 scikit-topt/sktopt/fea/solver_heat.py    | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 484fcb9..68e9de1 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -134,7 +134,9 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
-        if chosen_solver in ('cg_jacobi', 'cg_pyamg') and info != 0:
+        # PETSc reports divergence by a negative converged reason.
+        failed = info < 0 if chosen_solver.startswith('petsc') else info != 0
+        if failed:
             message = f"{chosen_solver} did not converge (info={info})"
             if allow_fallback_to_spsolve:
                 raise RuntimeError(message)
@@ -386,6 +388,10 @@ def solve_multi_load(
                 petsc_options=_petsc_options,
             )
         logger.info(f"PETSc multi-load solver info: {infos}")
+        if any(info < 0 for info in infos):
+            logger.warning(
+                f"{solver_cfg.solver} did not converge (info={infos})"
+            )
     else:
         # Perform a single LU factorization of K_e
         with section("factorize"):
diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 7d04775..a426188 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -200,6 +200,10 @@ def solve_heat_system_multi(
             petsc_options=petsc_options,
         )
         logger.info(f"PETSc heat multi-load solver info: {infos}")
+        if any(info < 0 for info in infos):
+            logger.warning(
+                f"{solver_name} did not converge (info={infos})"
+            )
     else:
         lu = scipy.sparse.linalg.splu(K_e.tocsc())
         u_sol = lu.solve(F_stack)
-- 
2.43.0


From faf18390087bb3e96ba303adeedfcb9a1044cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 46/50] fix: animation frames keep their last row and column

---
 scikit-topt/sktopt/core/visualization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index 1c22480..26c8c9e 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -209,7 +209,11 @@ def images2gif(
         ) as writer:
             for filename in image_files:
                 image = imageio.imread(filename)
-                image_small = zoom(image, (scale, scale, 1))  # (H, W, C)
+                # "nearest": the last row and column may fall outside the image
+                # by rounding, and would be black
+                image_small = zoom(
+                    image, (scale, scale, 1), mode="nearest"
+                )  # (H, W, C)
                 image_small = image_small.astype("uint8")
                 writer.append_data(image_small)
                 # writer.append_data(image)
-- 
2.43.0


From 461623cd0074af10e4861c9efb3c513ab1782b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 47/50] fix: mesh statistics show no volume for a boundary that
 is absent

---
 scikit-topt/sktopt/mesh/task_common.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 813c834..120b358 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -503,11 +503,14 @@ class FEMDomain():
         items = [
             "all", "dirichlet", "force", "design"
         ]
-        values = [
-            np.sum(self.elements_volume),
-            np.sum(self.elements_volume[self.dirichlet_elements]),
-            np.sum(self.elements_volume[self.neumann_elements]),
-            np.sum(self.elements_volume[self.design_elements])
+        # a boundary that is not there has no elements
+        values = [np.sum(self.elements_volume)] + [
+            0.0 if elements is None else np.sum(self.elements_volume[elements])
+            for elements in (
+                self.dirichlet_elements,
+                self.neumann_elements,
+                self.design_elements
+            )
         ]
         bars = axs[1, 2].bar(items, values)
         # axs[1, 0].bar_label(bars)
-- 
2.43.0


From f55eb57172c6d3f23fc0dd7f6bf7470b62f131c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 48/50] fix: histograms of values that are equal up to rounding

---
 scikit-topt/sktopt/core/visualization.py |  2 +-
 scikit-topt/sktopt/mesh/task_common.py   | 19 ++++++++++---------
 scikit-topt/sktopt/mesh/utils.py         | 13 +++++++++++++
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index 26c8c9e..a43d3b5 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -176,7 +176,7 @@ def rho_histo_plot(
 ):
     plt.clf()
     fig, ax = plt.subplots(1, 1, figsize=(8, 6))
-    ax.hist(rho.flatten(), bins=50)
+    ax.hist(rho.flatten(), bins=50, range=utils.histogram_range(rho))
     ax.set_xlabel("Density (rho)")
     ax.set_ylabel("Number of Elements")
     ax.set_title("Density Distribution")
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 120b358..7c0ba55 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -473,29 +473,30 @@ class FEMDomain():
         plt.clf()
         fig, axs = plt.subplots(2, 3, figsize=(14, 6))
 
-        axs[0, 0].hist(node_nearest_dists, bins=30, edgecolor='black')
+        def hist(ax, values):
+            ax.hist(
+                values, bins=30, edgecolor='black',
+                range=utils.histogram_range(values)
+            )
+
+        hist(axs[0, 0], node_nearest_dists)
         axs[0, 0].set_title("Nearest Neighbor Distance (Nodes)")
         axs[0, 0].set_xlabel("Distance")
         axs[0, 0].set_ylabel("Count")
         axs[0, 0].grid(True)
 
-        axs[0, 1].hist(element_nearest_dists, bins=30, edgecolor='black')
+        hist(axs[0, 1], element_nearest_dists)
         axs[0, 1].set_title("Nearest Neighbor Distance (Element Centers)")
         axs[0, 1].set_xlabel("Distance")
         axs[0, 1].set_ylabel("Count")
         axs[0, 1].grid(True)
 
-        axs[1, 0].hist(
-            self.elements_volume, bins=30, edgecolor='black'
-        )
+        hist(axs[1, 0], self.elements_volume)
         axs[1, 0].set_title("elements_volume - all")
         axs[1, 0].set_xlabel("Volume")
         axs[1, 0].set_ylabel("Count")
         axs[1, 0].grid(True)
-        axs[1, 1].hist(
-            self.elements_volume[self.design_elements],
-            bins=30, edgecolor='black'
-        )
+        hist(axs[1, 1], self.elements_volume[self.design_elements])
         axs[1, 1].set_title("elements_volume - design")
         axs[1, 1].set_xlabel("Volume")
         axs[1, 1].set_ylabel("Count")
diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index b25f069..34710d5 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -5,6 +5,19 @@ from numba import njit, prange
 import skfem
 
 
+def histogram_range(values: np.ndarray) -> tuple[float, float]:
+    """
+    Range for a histogram of ``values``. Values that differ by no more than
+    rounding span too little for any bins; their range is widened.
+    """
+    low, high = float(np.min(values)), float(np.max(values))
+    size = max(abs(low), abs(high))
+    if high - low <= 1.0e-9 * size:
+        pad = 0.5 * size if size > 0.0 else 0.5
+        return low - pad, high + pad
+    return low, high
+
+
 def get_points_in_range(x_rng, y_rng, z_rng):
     def in_range(x):
         return (
-- 
2.43.0


From fdb43381e3e9fbcbf0de04d072f6cbff8ee7c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:18 +0000
Subject: [PATCH 49/50] fix: several load cases are solved to full accuracy at
 any stiffness

---
 scikit-topt/sktopt/fea/solver_elastic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 68e9de1..7dc8031 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -393,13 +393,17 @@ def solve_multi_load(
                 f"{solver_cfg.solver} did not converge (info={infos})"
             )
     else:
-        # Perform a single LU factorization of K_e
+        # Perform a single LU factorization of the free block: next to
+        # stiffness entries of the size of E0, the unit rows of the
+        # constrained DOFs would cost the factorization its accuracy.
+        free = np.setdiff1d(np.arange(K_csr.shape[0]), dirichlet_dofs)
         with section("factorize"):
-            lu = scipy.sparse.linalg.splu(K_e.tocsc())
+            lu = scipy.sparse.linalg.splu(K_csr[free][:, free].tocsc())
 
         # Solve all load cases in one call (multi-RHS solve)
         with section("solve"):
-            u_sol = lu.solve(F_stack)      # shape: (n_dof, n_loads)
+            u_sol = np.zeros_like(F_stack)      # shape: (n_dof, n_loads)
+            u_sol[free] = lu.solve(F_stack[free])
 
     # Store the solutions in the provided array
     u_all[:, :] = u_sol
-- 
2.43.0


From f3cc3ead3a6200cb2745ef1d98ba9cd1675f98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:46 +0000
Subject: [PATCH 50/50] fix: percentile schedules given in whole numbers are
 applied

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 2 +-
 scikit-topt/sktopt/core/optimizers/oc.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index 4fee9f2..0596db3 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -220,7 +220,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             self._dL_buffer -= dL_mean
 
         scale_percentile = cfg.lagrangian_percentile
-        if isinstance(percentile, float):
+        if percentile is not None:
             scale_percentile = percentile
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index bdbe946..19bbbc2 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -189,7 +189,7 @@ class OC_Optimizer(common_density.DensityMethod):
 
         eps = 1e-12
         with self._timed_section("percentile_scale"):
-            if isinstance(percentile, float):
+            if percentile is not None:
                 scale = np.percentile(np.abs(dC_drho_design_eles), percentile)
             else:
                 scale = np.max(np.abs(dC_drho_design_eles))
-- 
2.43.0

