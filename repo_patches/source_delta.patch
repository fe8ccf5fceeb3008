From 785311740511d379104a7541b640ae175a77e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 01/26] fix: restore concrete params after the adjoint vjp
 (tracers leaked into the problem)

---
 jax_fem/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..e3bee56 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1412,7 +1412,11 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
         adjoint_vec = problem.P_mat @ adjoint_vec
 
     vjp_linear_fn = get_vjp_contraint_fn_params(params, sol_list)
-    vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
+    try:
+        vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
+    finally:
+        # Tracing left tracers in the problem; restore the concrete params.
+        problem.set_params(params)
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
     return vjp_result
-- 
2.43.0


From 28f2fa041736846f4d654597d8f9a86d5e72ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 02/26] fix: scale the adjoint right-hand side (small
 cotangents gave wrong gradients)

---
 jax_fem/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index e3bee56..c677baa 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1406,7 +1406,11 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
     # However, A.transpose(A_T) does not do in-place change to A
     A_T = PETSc.Mat()
     A.transpose(A_T)
-    adjoint_vec = linear_solver(A_T, v_vec, None, adjoint_solver_options)
+    # The adjoint equation is linear in v_vec: solve it for a unit right-hand side, so that the
+    # absolute tolerances of the linear solvers do not swallow small cotangents.
+    v_norm = np.linalg.norm(v_vec)
+    v_scale = np.where(v_norm > 0., v_norm, 1.)
+    adjoint_vec = v_scale * linear_solver(A_T, v_vec / v_scale, None, adjoint_solver_options)
 
     if hasattr(problem, 'P_mat'):
         adjoint_vec = problem.P_mat @ adjoint_vec
-- 
2.43.0


From 260867d1a0ded00c5bf5077d1d7dcb5ca8f40a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 03/26] fix: do not write the default linear solver into the
 caller's options

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c677baa..700ca5c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From 4b1fd493f550d2e73da35183ab2879415c936113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 04/26] fix: jax_solver with precond=False passed a
 preconditioner returning None

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 700ca5c..6cd734d 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From 4c23b326fd5156882d79dfca716ab00720d7917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 05/26] fix: save_sol failed for a file name without a
 directory

---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..e824f84 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 7a41e723a8b3de089724e143b42bcaef0e5ac945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 06/26] fix: walltime lost the result of the timed function
 (jax.lib.xla_bridge is gone)

---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index e824f84..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -187,7 +187,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From e75711a5a171f1c706e5f84d11c3148abb2b5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 07/26] fix: box_mesh_gmsh left gmsh initialized (with a stale
 model) when meshing failed

---
 jax_fem/generate_mesh.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..3feabc2 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -236,23 +236,25 @@ def box_mesh_gmsh(Nx, Ny, Nz, domain_x, domain_y, domain_z, data_dir, ele_type='
     offset_z = 0.
 
     gmsh.initialize()
-    gmsh.option.setNumber("Mesh.MshFileVersion", 2.2)  # save in old MSH format
-    if cell_type.startswith('tetra'):
-        Rec2d = False  # tris or quads
-        Rec3d = False  # tets, prisms or hexas
-    else:
-        Rec2d = True
-        Rec3d = True
-    p = gmsh.model.geo.addPoint(offset_x, offset_y, offset_z)
-    l = gmsh.model.geo.extrude([(0, p)], domain_x, 0, 0, [Nx], [1])
-    s = gmsh.model.geo.extrude([l[1]], 0, domain_y, 0, [Ny], [1], recombine=Rec2d)
-    v = gmsh.model.geo.extrude([s[1]], 0, 0, domain_z, [Nz], [1], recombine=Rec3d)
-
-    gmsh.model.geo.synchronize()
-    gmsh.model.mesh.generate(3)
-    gmsh.model.mesh.setOrder(degree)
-    gmsh.write(msh_file)
-    gmsh.finalize()
+    try:
+        gmsh.option.setNumber("Mesh.MshFileVersion", 2.2)  # save in old MSH format
+        if cell_type.startswith('tetra'):
+            Rec2d = False  # tris or quads
+            Rec3d = False  # tets, prisms or hexas
+        else:
+            Rec2d = True
+            Rec3d = True
+        p = gmsh.model.geo.addPoint(offset_x, offset_y, offset_z)
+        l = gmsh.model.geo.extrude([(0, p)], domain_x, 0, 0, [Nx], [1])
+        s = gmsh.model.geo.extrude([l[1]], 0, domain_y, 0, [Ny], [1], recombine=Rec2d)
+        v = gmsh.model.geo.extrude([s[1]], 0, 0, domain_z, [Nz], [1], recombine=Rec3d)
+
+        gmsh.model.geo.synchronize()
+        gmsh.model.mesh.generate(3)
+        gmsh.model.mesh.setOrder(degree)
+        gmsh.write(msh_file)
+    finally:
+        gmsh.finalize()
 
     mesh = meshio.read(msh_file)
     points = mesh.points # (num_total_nodes, dim)
-- 
2.43.0


From 93ca09bd4bf778b0188c281aafd639967d75e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 08/26] fix: cylinder_mesh_gmsh returned the mesh of an earlier
 call when gmsh failed

---
 jax_fem/generate_mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index 3feabc2..470e380 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -349,7 +349,12 @@ def cylinder_mesh_gmsh(data_dir, R=5, H=10, circle_mesh=5, hight_mesh=20, rect_r
 
     with open(geo_file, "w") as f:
         f.write(string)
-    os.system("gmsh -3 {geo_file} -o {msh_file} -format msh2".format(geo_file=geo_file, msh_file=msh_file))
+    # A mesh left by an earlier call must not be mistaken for the output of this one.
+    if os.path.exists(msh_file):
+        os.remove(msh_file)
+    status = os.system("gmsh -3 {geo_file} -o {msh_file} -format msh2".format(geo_file=geo_file, msh_file=msh_file))
+    if status != 0:
+        raise RuntimeError(f"gmsh failed to mesh {geo_file} (exit status {status}).")
 
     mesh = meshio.read(msh_file)
     points = mesh.points # (num_total_nodes, dim)
-- 
2.43.0


From 1c752ac21b0f66d584ce94f601548d67dc953cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 09/26] fix: make the serendipity (QUAD8, HEX20) shape
 functions nodal

---
 jax_fem/basis.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..22b2eb5 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -114,6 +114,22 @@ def get_elements(ele_type):
     return element_family, basix_ele, basix_face_ele, quadrature_order, degree, re_order
 
 
+def tabulate_nodal(element, basix_ele, points):
+    """Tabulate values and first derivatives of the nodal basis functions.
+
+    The degrees of freedom of basix' serendipity elements on edges are integral moments, while
+    the mesh nodes are edge midpoints, so the basis has to be transformed to the nodal one.
+    """
+    tab = element.tabulate(1, points)
+    if element.family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        midpoints = [onp.mean(vertices[edge], axis=0) for edge in basix.topology(basix_ele)[1]]
+        nodes = onp.vstack((vertices, midpoints))
+        nodal_vals = element.tabulate(0, nodes)[0, :, :, 0]
+        tab = onp.einsum('dqiv,ij->dqjv', tab, onp.linalg.inv(nodal_vals))
+    return tab
+
+
 def reorder_inds(inds, re_order):
     """Apply re-ordering transformation for node indices.
     """
@@ -168,7 +184,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, basix_ele, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -242,7 +258,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, basix_ele, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From d39f59ccd2a785fa1c8c5d06121accf62f144ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 10/26] fix: an interrupted refresh of the tangent's boundary
 rows left stale rows behind

---
 jax_fem/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 6cd734d..5def53f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -505,7 +505,7 @@ class _PetscTangentCache:
         if sources_unchanged:
             return
 
-        self.bc_row_inds_list = []
+        bc_row_inds_list = []
         for ind, fe in enumerate(problem.fes):
             for i in range(len(fe.node_inds_list)):
                 row_inds = onp.asarray(
@@ -514,10 +514,12 @@ class _PetscTangentCache:
                     + problem.offset[ind],
                     dtype=PETSc.IntType,
                 )
-                self.bc_row_inds_list.append(row_inds)
+                bc_row_inds_list.append(row_inds)
         # Keep references, rather than only object ids, so a released array's
         # id cannot be reused and mistaken for an unchanged BC index array.
-        self._bc_index_sources = sources
+        # Replace rows and sources together: an interrupted refresh must not pair
+        # the old sources with incomplete rows.
+        self.bc_row_inds_list, self._bc_index_sources = bc_row_inds_list, sources
 
     def update(self, problem):
         self._refresh_bc_rows_if_needed(problem)
-- 
2.43.0


From 397685393f03049b07174fd4dfcec354138ecc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 11/26] fix: iterate every arc-length step to equilibrium

The residual of the converged starting point ended the loop after the
predictor, so every other continuation step was left out of equilibrium.
---
 jax_fem/solver.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 5def53f..022d4f8 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -580,11 +580,15 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
     Delta_lamda_dir = prev_Delta_lamda
 
     tol = 1e-6
-    res_val = 1.
-    while res_val > tol:
+    stepped = False
+    while True:
         res_vec, A = newton_update_helper(u_vec)
         res_val = np.linalg.norm(res_vec)
         logger.debug(f"Arc length solver: res_val = {res_val}")
+        # A small residual of the previous point must not end the new step.
+        if stepped and res_val <= tol:
+            break
+        stepped = True
 
         delta_u_bar = scipy_spsolve(A, -res_vec)
         delta_u_t = scipy_spsolve(A, u_b)
@@ -666,12 +670,16 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
     Delta_lamda_dir = prev_Delta_lamda
 
     tol = 1e-6
-    res_val = 1.
-    while res_val > tol:
+    stepped = False
+    while True:
         res_vec, A = newton_update_helper(u_vec)
         load_term = (1. - lamda) * q_aux_mapped
         res_val = np.linalg.norm(res_vec + load_term)
         logger.debug(f"Arc length solver: res_val = {res_val}")
+        # A small residual of the previous point must not end the new step.
+        if stepped and res_val <= tol:
+            break
+        stepped = True
 
         delta_u_bar = scipy_spsolve(A, -(res_vec + load_term))
         delta_u_t = scipy_spsolve(A, q_aux_mapped)
-- 
2.43.0


From 225705d9ec7ca7631d894f462c2510de63756830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 12/26] fix: dynamic relaxation kept the linear solver's error
 in the Dirichlet values

---
 jax_fem/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 022d4f8..ebe5610 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -959,7 +959,8 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
 
     if initial_guess is not None:
         dofs = initial_guess
-        dofs = assign_bc(dofs, problem)
+    # The loop below never moves the constrained dofs.
+    dofs = assign_bc(dofs, problem)
 
     # parameters not to change
     cmin = 1e-3
-- 
2.43.0


From c69f756314a453860bb11c7ce76612aba9b28fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 13/26] fix: dynamic relaxation returned a non-finite state as
 the solution

---
 jax_fem/solver.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index ebe5610..9ebf7d4 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1043,17 +1043,10 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
         # output on screen
         printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint, info, info_force)
 
-    # check if converged
-    convergence = True
-    if onp.isnan(onp.max(onp.absolute(R))):
-        convergence = False
-
-    # print final info
-    if convergence:
-        print("DRSolve finished in %d iterations and %fs" % \
-              (nIters, time.time() - timeZ))
-    else:
-        print("FAILED to converged")
+    assert onp.isfinite(error), f"DRSolve FAILED to converge: residual contains NaN after {nIters} iterations"
+
+    print("DRSolve finished in %d iterations and %fs" % \
+          (nIters, time.time() - timeZ))
 
     sol_list = problem.unflatten_fn_sol_list(dofs)
 
-- 
2.43.0


From 1489818edf66552478c38d6adce290fe2468d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 14/26] fix: cylinder_mesh_gmsh failed for directories with
 spaces in their name

---
 jax_fem/generate_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index 470e380..d4a39ca 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import gmsh
 import numpy as onp
 import meshio
@@ -352,7 +353,8 @@ def cylinder_mesh_gmsh(data_dir, R=5, H=10, circle_mesh=5, hight_mesh=20, rect_r
     # A mesh left by an earlier call must not be mistaken for the output of this one.
     if os.path.exists(msh_file):
         os.remove(msh_file)
-    status = os.system("gmsh -3 {geo_file} -o {msh_file} -format msh2".format(geo_file=geo_file, msh_file=msh_file))
+    status = os.system("gmsh -3 {geo_file} -o {msh_file} -format msh2".format(geo_file=shlex.quote(geo_file),
+                                                                              msh_file=shlex.quote(msh_file)))
     if status != 0:
         raise RuntimeError(f"gmsh failed to mesh {geo_file} (exit status {status}).")
 
-- 
2.43.0


From cd62dcfe8a3a484be06e39ca4394addd98de4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 15/26] fix: modify_vtu_file emptied a file converted in place

---
 jax_fem/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 90bd0a9..9e755d0 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -73,12 +73,12 @@ def modify_vtu_file(input_file_path, output_file_path):
     output_file_path : str
         Path for output VTU file (version 1.0)
     """
-    fin = open(input_file_path, "r")
-    fout = open(output_file_path, "w")
-    for line in fin:
-        fout.write(line.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'))
-    fin.close()
-    fout.close()
+    # Read everything first: the output may be the input file itself.
+    with open(input_file_path, "r") as fin:
+        lines = fin.readlines()
+    with open(output_file_path, "w") as fout:
+        for line in lines:
+            fout.write(line.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'))
 
 
 def read_abaqus_and_write_vtk(abaqus_file, vtk_file):
-- 
2.43.0


From 9a95d9dcbe9f6b6899cbde0ac94e3edda5ac27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 16/26] fix: make_video failed for directories with spaces in
 their name

---
 jax_fem/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 9e755d0..0aeb2eb 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -3,6 +3,7 @@ import numpy as onp
 import meshio
 import json
 import os
+import shlex
 import time
 from functools import wraps
 
@@ -135,8 +136,8 @@ def make_video(data_dir):
     Output saved as *{data_dir}/mp4/test.mp4*. Requires ffmpeg.
     """
     os.system(
-        f'ffmpeg -y -framerate 10 -i {data_dir}/png/tmp/u.%04d.png -pix_fmt yuv420p -vf \
-               "crop=trunc(iw/2)*2:trunc(ih/2)*2" {data_dir}/mp4/test.mp4') # noqa
+        f'ffmpeg -y -framerate 10 -i {shlex.quote(str(data_dir))}/png/tmp/u.%04d.png -pix_fmt yuv420p -vf \
+               "crop=trunc(iw/2)*2:trunc(ih/2)*2" {shlex.quote(str(data_dir))}/mp4/test.mp4') # noqa
 
 
 def timeit(func):
-- 
2.43.0


From d65de20f9ea69efa2cbe1021484d82dfa5ae6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 17/26] fix: AMGX results were used without checking that the
 solve converged

---
 jax_fem/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 9ebf7d4..1bc3d15 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -206,6 +206,8 @@ def AMGX_solve_host(indptr, indices, data, shape_arr, x, b, cfg_path):
 
         res = onp.linalg.norm(A_csr @ result - b_host)
         logger.info("AMGX Solver - Finished solving, linear solve res = %.3g", res)
+        # Verify convergence: AMGX reports a failed solve only through its status.
+        assert res < 0.1 * max(1., onp.linalg.norm(b_host)), f"AMGX linear solver failed to converge, err = {res}"
 
         return result.astype(dtype).reshape(shape_b)
 
-- 
2.43.0


From ed29c0a1321895b61dabe9c2429ba03f5e4079aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 18/26] fix: distributed Poisson solvers hung when a rank owns
 no boundary dof

Mat.zeroRows is collective, but only ranks with boundary dofs called it.
---
 applications/parallel/example.py     |  8 ++++----
 applications/parallel/poisson_mpi.py | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/applications/parallel/example.py b/applications/parallel/example.py
index 0e8fd72..184e31c 100644
--- a/applications/parallel/example.py
+++ b/applications/parallel/example.py
@@ -329,10 +329,10 @@ def main():
             if rstart <= gd < rend:
                 boundary_dofs_set.add(gd)
     boundary_dofs = sorted(boundary_dofs_set)
-    if boundary_dofs:
-        mat.zeroRows(_petsc_int_array(boundary_dofs), diag=1.0)
-        for dof in boundary_dofs:
-            b.setValue(dof, 0.0)
+    # zeroRows is collective: ranks owning no boundary dof call it as well
+    mat.zeroRows(_petsc_int_array(boundary_dofs), diag=1.0)
+    for dof in boundary_dofs:
+        b.setValue(dof, 0.0)
     mat.assemblyBegin()
     mat.assemblyEnd()
     b.assemblyBegin()
diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index 6e13569..c53c0ca 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -321,13 +321,13 @@ def main():
         mat.assemblyBegin()
         mat.assemblyEnd()
 
-        if boundary_owned:
-            mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)
-            b.setValues(
-                _petsc_int(boundary_owned),
-                np.zeros(len(boundary_owned), dtype=np.float64),
-                addv=PETSc.InsertMode.INSERT_VALUES,
-            )
+        # zeroRows is collective: ranks owning no boundary dof call it as well
+        mat.zeroRows(_petsc_int(boundary_owned), diag=1.0)
+        b.setValues(
+            _petsc_int(boundary_owned),
+            np.zeros(len(boundary_owned), dtype=np.float64),
+            addv=PETSc.InsertMode.INSERT_VALUES,
+        )
         mat.assemblyBegin()
         mat.assemblyEnd()
         b.assemblyBegin()
-- 
2.43.0


From 653da0e61caa4f3c64e3ed693f66ade5d43a047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 19/26] fix: distributed assembly lost the cells of a rank
 owning no dof

scatter_global_coo returned before sending the off-process contributions.
---
 applications/parallel/poisson_mpi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/applications/parallel/poisson_mpi.py b/applications/parallel/poisson_mpi.py
index c53c0ca..a01492e 100644
--- a/applications/parallel/poisson_mpi.py
+++ b/applications/parallel/poisson_mpi.py
@@ -144,9 +144,6 @@ def scatter_global_coo(
     ng, _ = mat.getSize()
     rstart, rend = mat.getOwnershipRange()
     nlocal = rend - rstart
-    if nlocal == 0:
-        if timers and rank == 0: timers["prep"] = timers.get("prep", 0.0) + (tw() - t0)
-        return
     t4 = tw()
     own = (r >= rstart) & (r < rend)
     # Off-rows (need RCV, always in COO)
-- 
2.43.0


From 44f0698bc0ed8f0b9568f05e363f02bffdea46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 20/26] fix: parallel example reported the result of a linear
 solve that did not converge

---
 applications/parallel/example.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/parallel/example.py b/applications/parallel/example.py
index 184e31c..0463592 100644
--- a/applications/parallel/example.py
+++ b/applications/parallel/example.py
@@ -344,6 +344,7 @@ def main():
     ksp.setType("cg")
     ksp.getPC().setType("jacobi")
     ksp.setFromOptions()
+    ksp.setErrorIfNotConverged(True)
     ksp.solve(b, x)
 
     # =========================================================================
-- 
2.43.0


From a8dc78d0120d44e40a240d2693e731cff6b93425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 21/26] fix: MMA filter failed for design domains of fewer than
 20 cells

---
 jax_fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..7a10b44 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -42,9 +42,9 @@ def compute_filter_kd_tree(fe):
     I = []
     J = []
     V = []
+    num_nbs = min(20, flex_num_cells)
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], range(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 705d09998c8c52f954f0577544f5a2077cbdd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 22/26] fix: MMA filter could not read meshes stored as jax
 arrays

---
 jax_fem/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 7a10b44..8cd544c 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.take(np.asarray(fe.points), np.asarray(fe.cells), axis=0), axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
-- 
2.43.0


From 7d26a736999813df403f7de980bac6b2ef18d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 23/26] fix: crystal plasticity ignored changes of the time
 step

problem.dt was read while the kernels were traced, so a later change of the
time step had no effect on the solve while the history update used it. The
time step is now passed to the kernels with the history variables.
---
 applications/crystal_plasticity/models.py     | 39 +++++++++++--------
 .../crystal_plasticity/volume_sensitivity.py  |  2 +-
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/applications/crystal_plasticity/models.py b/applications/crystal_plasticity/models.py
index bb592c6..2936624 100644
--- a/applications/crystal_plasticity/models.py
+++ b/applications/crystal_plasticity/models.py
@@ -127,29 +127,29 @@ class CrystalPlasticity(Problem):
         ao = 0.001
         xm = 0.1
 
-        def get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat):
+        def get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt):
             _, unflatten_fn = jax.flatten_util.ravel_pytree(Fp_inv_old)
-            _, unflatten_fn_params = jax.flatten_util.ravel_pytree([Fp_inv_old, Fp_inv_old, slip_resistance_old, slip_old, rot_mat])
+            _, unflatten_fn_params = jax.flatten_util.ravel_pytree([Fp_inv_old, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt])
     
             def first_PK_stress(u_grad):
-                x, _ = jax.flatten_util.ravel_pytree([u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat])
+                x, _ = jax.flatten_util.ravel_pytree([u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt])
                 y = newton_solver(x)
                 S = unflatten_fn(y)
-                _, _, _, Fe, F = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, S)
+                _, _, _, Fe, F = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt, S)
                 sigma = 1./np.linalg.det(Fe)*Fe @ S @ Fe.T
                 P = np.linalg.det(F)*sigma @ np.linalg.inv(F).T 
                 return P    
 
             def update_int_vars(u_grad):
-                x, _ = jax.flatten_util.ravel_pytree([u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat])
+                x, _ = jax.flatten_util.ravel_pytree([u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt])
                 y = newton_solver(x)
                 S = unflatten_fn(y)
-                Fp_inv_new, slip_resistance_new, slip_new, Fe, F = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, S)
+                Fp_inv_new, slip_resistance_new, slip_new, Fe, F = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt, S)
                 return Fp_inv_new, slip_resistance_new, slip_new, rot_mat
 
-            def helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, S):
+            def helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt, S):
                 tau = np.sum(S[None, :, :] * rotate_tensor_rank_2_vmap(rot_mat, self.Schmid_tensors), axis=(1, 2))
-                gamma_inc = ao*self.dt*np.absolute(tau/slip_resistance_old)**(1./xm)*np.sign(tau)
+                gamma_inc = ao*dt*np.absolute(tau/slip_resistance_old)**(1./xm)*np.sign(tau)
 
                 tmp = h*np.absolute(gamma_inc) * np.absolute(1 - slip_resistance_old/t_sat)**gss_a * np.sign(1 - slip_resistance_old/t_sat)
                 g_inc = (self.q @ tmp[:, None]).reshape(-1)
@@ -166,9 +166,9 @@ class CrystalPlasticity(Problem):
                 return Fp_inv_new, slip_resistance_new, slip_new, Fe, F
 
             def implicit_residual(x, y):
-                u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat = unflatten_fn_params(x)
+                u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt = unflatten_fn_params(x)
                 S = unflatten_fn(y)
-                _, _, _, Fe, _ = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, S)
+                _, _, _, Fe, _ = helper(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt, S)
                 S_ = np.sum(rotate_tensor_rank_4(rot_mat, self.C) * 1./2.*(Fe.T @ Fe - np.eye(self.dim))[None, None, :, :], axis=(2, 3))           
                 res, _ = jax.flatten_util.ravel_pytree(S - S_)
                 return res
@@ -232,12 +232,12 @@ class CrystalPlasticity(Problem):
 
             return first_PK_stress, update_int_vars
 
-        def tensor_map(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat):
-            first_PK_stress, _ = get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat)
+        def tensor_map(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt):
+            first_PK_stress, _ = get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt)
             return first_PK_stress(u_grad)
 
-        def update_int_vars_map(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat):
-            _, update_int_vars = get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat)
+        def update_int_vars_map(u_grad, Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt):
+            _, update_int_vars = get_partial_tensor_map(Fp_inv_old, slip_resistance_old, slip_old, rot_mat, dt)
             return update_int_vars(u_grad)
 
         return tensor_map, update_int_vars_map
@@ -249,12 +249,17 @@ class CrystalPlasticity(Problem):
         u_grads = np.take(sol, self.fes[0].cells, axis=0)[:, None, :, :, None] * self.fes[0].shape_grads[:, :, :, None, :] 
         u_grads = np.sum(u_grads, axis=2) # (num_cells, num_quads, vec, dim)
         Fp_inv_gp, slip_resistance_gp, slip_gp, rot_mats_gp = \
-            vmap_update_int_vars_map(u_grads, *params)
+            vmap_update_int_vars_map(u_grads, *params, self.dt_gp())
         # TODO
         return [Fp_inv_gp, slip_resistance_gp, slip_gp, rot_mats_gp]
 
+    def dt_gp(self):
+        return self.dt*onp.ones((len(self.fes[0].cells), self.fes[0].num_quads))
+
     def set_params(self, params):
-        self.internal_vars = params
+        # The time step is passed along with the history variables: the compiled kernels would
+        # otherwise keep the value of self.dt they were first traced with.
+        self.internal_vars = [*params, self.dt_gp()]
 
     def inspect_interval_vars(self, params):
         """For post-processing only
@@ -275,7 +280,7 @@ class CrystalPlasticity(Problem):
 
         partial_tensor_map, _ = self.get_maps()
         vmap_partial_tensor_map = jax.jit(jax.vmap(jax.vmap(partial_tensor_map)))
-        P = vmap_partial_tensor_map(u_grads, *params)
+        P = vmap_partial_tensor_map(u_grads, *params, self.dt_gp())
 
         def P_to_sigma(P, F):
             return 1./np.linalg.det(F) * P @ F.T
diff --git a/applications/crystal_plasticity/volume_sensitivity.py b/applications/crystal_plasticity/volume_sensitivity.py
index e757fba..2de9ce8 100644
--- a/applications/crystal_plasticity/volume_sensitivity.py
+++ b/applications/crystal_plasticity/volume_sensitivity.py
@@ -21,7 +21,7 @@ def problem():
     class CrystalPlasticityModified(CrystalPlasticity):
         def set_params(self, all_params):
             disp, params = all_params
-            self.internal_vars = params
+            super().set_params(params)
             self.fes[0].dirichlet_bc_info[-1][-1] = get_dirichlet_top(disp)
             self.fes[0].update_Dirichlet_boundary_conditions(self.fes[0].dirichlet_bc_info)
 
-- 
2.43.0


From 4efd4cf5489257e839bd71405ee08f4f4babfaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 24/26] fix: crystal plasticity's local Newton iteration could
 loop forever

The stress iteration at a quadrature point had no step limit; where it
stagnates above its absolute tolerance (an overshooting displacement
iterate) the compiled loop never returned. It now stops after 200 steps
and yields NaN, which the global solver reports.
---
 applications/crystal_plasticity/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/crystal_plasticity/models.py b/applications/crystal_plasticity/models.py
index 2936624..bb0816f 100644
--- a/applications/crystal_plasticity/models.py
+++ b/applications/crystal_plasticity/models.py
@@ -182,10 +182,11 @@ class CrystalPlasticity(Problem):
                 step = 0
                 res_vec = implicit_residual(x, y0)
                 tol = 1e-8
+                max_step = 200
 
                 def cond_fun(state):
                     step, res_vec, y = state
-                    return np.linalg.norm(res_vec) > tol
+                    return np.logical_and(np.linalg.norm(res_vec) > tol, step < max_step)
 
                 def body_fun(state):
                     # Line search with decaying relaxation parameter (the "cut half" method).
@@ -218,7 +219,8 @@ class CrystalPlasticity(Problem):
 
                 step_f, res_vec_f, y_f = jax.lax.while_loop(cond_fun, body_fun, (step, res_vec, y0))
 
-                return y_f
+                # NaN makes the global Newton solver report the failure.
+                return np.where(np.linalg.norm(res_vec_f) <= tol, y_f, np.nan)
 
             @newton_solver.defjvp
             def f_jvp(primals, tangents):
-- 
2.43.0


From a241d8423e62830e1ddd74c7ea2cb28efbffbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 25/26] fix: quiet element example failed when nothing is born
 in its first step

The laser centre, the face markers and the quiet points were only assigned
at the first birth; a tool path that starts with the laser off, or whose
first step activates no element, ended in UnboundLocalError.
---
 applications/quiet_element/example.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/applications/quiet_element/example.py b/applications/quiet_element/example.py
index 9ff4481..ccac311 100644
--- a/applications/quiet_element/example.py
+++ b/applications/quiet_element/example.py
@@ -291,6 +291,11 @@ def quiet_element_simulation():
     active_cell_truth_tab[centroids[:, 2] <= base_plate_height] = True
     external_faces, cells_face, hash_map, inner_faces, all_faces = initialize_hash_map(problem, active_cell_truth_tab)
 
+    # The laser may be off, or no element be born, before the first birth.
+    laser_center = onp.append(toolpath[1, 1:3], toolpath[2, 3] + base_plate_height)
+    active_face_truth_tab = get_active_face_truth_tab(problem, external_faces, laser_center[2])
+    quiet_point_inds_set = get_quiet_point_inds_set(problem, active_cell_truth_tab)
+
     sol_list = [T0*np.ones((len(problem.fe.points), vec))]
     active_cell_truth_tab_old = active_cell_truth_tab
 
-- 
2.43.0


From 7278ede7a6913724d184592c50c6df76ea032d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 26/26] fix: modify_vtu_file rewrote CRLF line endings

---
 jax_fem/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 0aeb2eb..6cc1059 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -75,9 +75,9 @@ def modify_vtu_file(input_file_path, output_file_path):
         Path for output VTU file (version 1.0)
     """
     # Read everything first: the output may be the input file itself.
-    with open(input_file_path, "r") as fin:
+    with open(input_file_path, "r", newline="") as fin:
         lines = fin.readlines()
-    with open(output_file_path, "w") as fout:
+    with open(output_file_path, "w", newline="") as fout:
         for line in lines:
             fout.write(line.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'))
 
-- 
2.43.0

