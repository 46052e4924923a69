From c18336868fff0880d6cf41c62e34e6630e39cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/71] fix: compare version components in order in
 _compare_version_le

---
 python/qugar/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..8c32ecf 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -105,10 +105,10 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
     lhs = _extract_version(version_lhs)
     rhs = _extract_version(version_rhs)
 
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
+    if lhs[0] != rhs[0]:
+        return lhs[0] < rhs[0]
+    elif lhs[1] != rhs[1]:
+        return lhs[1] < rhs[1]
     else:
         return lhs[2] <= rhs[2]
 
-- 
2.43.0


From f6e97e2150503f80c7089fe8c08a94c0281fa557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 02/71] fix: never expose a half-built shim library to
 concurrent or later callers

---
 python/qugar/dolfinx/_shim/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..2354983 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,11 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Build aside and move the finished library into place at once: the
+        # fast path above takes no lock, so that neither another caller nor
+        # a later run may ever find a library that is still being written
+        # (or whose build was interrupted) under its final name.
+        tmp = cache / f".{_LIB_FILENAME}.{os.getpid()}.tmp"
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,7 +161,7 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
@@ -167,7 +172,14 @@ def ensure_built() -> tuple[Path, str]:
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        # On macOS the install name must be the one of the final library.
+        if sys.platform == "darwin":
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
+        try:
+            subprocess.run(cmd, check=True)
+            os.replace(tmp, lib)
+        finally:
+            tmp.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From f5890a6d69b3549b614df7c62f6e60778824656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 03/71] fix: use local facet ids in
 create_interior/all_mesh_facets

---
 python/qugar/mesh/mesh_facets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..8bd3030 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -478,7 +478,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -505,6 +505,6 @@ if qugar.utils.has_FEniCSx:
         """
         topology = mesh.topology
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From 7ca4b72310dc7cd677299831e1ab3112e99ccda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 04/71] fix: create the facet connectivity in
 create_all_mesh_facets

---
 python/qugar/mesh/mesh_facets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 8bd3030..2501ca0 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -504,6 +504,7 @@ if qugar.utils.has_FEniCSx:
             MeshFacets: A MeshFacets instance with all facets.
         """
         topology = mesh.topology
+        topology.create_connectivity(topology.dim - 1, topology.dim)
         imap = topology.index_map(topology.dim - 1)
         all_facets = np.arange(imap.size_local, dtype=np.int32)
 
-- 
2.43.0


From 31c8d466356babaf1237c5f2c858d964614c7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 05/71] fix: accept processes without cells when mapping cells
 to facets

---
 python/qugar/mesh/mesh_facets.py | 4 +++-
 python/qugar/mesh/tp_mesh.py     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 2501ca0..da80012 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,7 +375,9 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
-        return conn.array.reshape(conn.num_nodes, -1)
+        # Note: the current process may own no cells at all.
+        n_facets_per_cell = conn.array.size // max(conn.num_nodes, 1)
+        return conn.array.reshape(conn.num_nodes, n_facets_per_cell)
 
     def create_facets_from_ids(
         mesh: dolfinx.mesh.Mesh,
diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..870df2b 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -432,7 +432,7 @@ class TensorProductMesh(Mesh):
         tdim = self.tdim
         self.topology.create_connectivity(tdim, tdim - 1)
         cell_to_facets = self.topology.connectivity(tdim, tdim - 1)
-        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
+        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
         return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
-- 
2.43.0


From 222032f07203ddf313c9a4bef09c090633153b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 06/71] fix: lexicographical/DOLFINx numbering of hexahedron
 edges

---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From 7557919b160e5e4ed34c4a52567c9ae68a06a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 07/71] fix: return the internal indices of 2D and 3D
 structures as a flat array

---
 python/qugar/mesh/tp_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..9093b67 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,18 +95,20 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
+            internals = internals_1D + np.arange(
                 n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
             ).reshape(n_inds[1] - 2, 1)
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
+            internals = internals_2D + np.arange(
                 n_inds[0] * n_inds[1],
                 n_inds[0] * n_inds[1] * (n_inds[2] - 1),
                 n_inds[0] * n_inds[1],
                 dtype=np.int64,
             ).reshape(n_inds[2] - 2, 1)
 
+        return internals.ravel()
+
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
         """Extracts the face indices of the hypercube.
-- 
2.43.0


From 0fae8cd8f8b7e2a1e764fb03f0b3ba1378f7afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 08/71] fix: avoid 32 bits overflow when computing
 tensor-product indices

---
 python/qugar/mesh/tp_index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 9093b67..0141957 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -57,6 +57,7 @@ class TensorProdIndex:
             the corners.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -88,6 +89,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -124,6 +126,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -231,6 +234,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the face.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
@@ -296,6 +300,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the edge.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
-- 
2.43.0


From 628665b05fe330c40b03a261152cc6fddfe443e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/71] fix: search values in an empty array

---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..43a7a78 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(values_to_search.shape, -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From 0039b434480d4a26771fb0d3ecaf6223c3e8307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 10/71] fix: base the default merging tolerance on the bounding
 box of the nodes

---
 python/qugar/mesh/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 43a7a78..be040b9 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -77,7 +77,7 @@ def _merge_coincident_points_in_mesh(
     kdtree = sp.spatial.KDTree(nodes)
 
     if tolerance is None:
-        tolerance = cast(nodes.dtype.type, 1.0e-5 * (np.max(nodes) - np.min(nodes)))
+        tolerance = cast(nodes.dtype.type, 1.0e-5 * np.max(np.ptp(nodes, axis=0)))
     coincidences = kdtree.query_pairs(tolerance, output_type="ndarray")
 
     master = coincidences[:, 0]
-- 
2.43.0


From 64ebf19772a922dec7bcab12674337d1bfb23b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 11/71] fix: generate all the nodes of 1D tensor-product meshes

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 870df2b..a9c2278 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -151,7 +151,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0]]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From 7a55f36445794b45e78d9d13a21df328d4caf913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 12/71] fix: use DOLFINx local facet ids for extracting the
 facets of a mesh face

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index a9c2278..f19fc11 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        local_facet_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, local_facet_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From 47c58bf39cd7f9125030c8bb5c8dda6b07771ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 13/71] fix: compute the tensor index of a single cell

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index f19fc11..1a7212f 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -450,7 +450,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 94bf2ff8ca3ba9e138965603773291a059f1f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 14/71] fix: forward ghost mode and dtype properly in
 create_Cartesian_mesh

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 1a7212f..cb7b615 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -608,4 +608,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 08794c2eb00c04a96cd78e105e48615d760a92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 15/71] fix: treat a full list of active cells in the same way
 in all the processes

---
 python/qugar/mesh/tp_mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index cb7b615..77cf2ec 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -301,6 +301,11 @@ class TensorProductMesh(Mesh):
         self._n_cells = np.array(n_cells).astype(np.int32)
         assert np.all(self._n_cells > 0)
 
+        # The connectivity is only available in rank 0, so other ranks
+        # cannot know otherwise whether all the cells are active.
+        if active_cells is not None and active_cells.size == self.num_cells_tp:
+            active_cells = None
+
         if comm.rank == 0:
             conn = _create_tensor_prod_mesh_conn(tdim, degree, self.num_cells_dir)
             conn = np.asarray(conn, dtype=np.int64, order="C")
-- 
2.43.0


From 7fd0849dbdd261ade42f9f50bd5e78192464f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 16/71] fix: do not replace the interior cut facets when
 computing the empty ones

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From b422c80f3fe5879348d31a40fd27e1c1f7746a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 17/71] fix: use the empty tag for the empty facets in
 create_facet_tags

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From bbf5d00c49885920497c4569973af67626424dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 18/71] fix: generate the eight permutations of quadrilateral
 facets

A UFL cell was compared with a string, so that the last two
permutations were never created (IndexError on hexahedral meshes).
---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From a383d66b4bc68eb379b31cba2954973f2f0642e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 19/71] fix: flag the empty interior facets in their own row

Interior facets have two rows each, but the empty ones were flagged as if
they had one.
---
 python/qugar/dolfinx/custom_coefficients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..bc79587 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,11 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        empty_ids = self._get_empty_entities_ids()
+        if interior_facet:
+            all_rel_offsets.reshape(-1, 2)[empty_ids, 0] = 0
+        else:
+            all_rel_offsets[empty_ids] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From 5b5a55df79e89514809d5d40afbf20b5c8edadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 20/71] fix: keep together the coefficients of both sides of
 interior facets

The column with the offset of the custom data split the coefficients of
the sides, that kernels read as consecutive values, and the offset was
looked for after the first side of the last coefficient.
---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 60 +++++++++++++++++++--
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..041596b 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # In interior facets, every coefficient has values for both sides.
+            n_sides = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + n_sides * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index bc79587..a8a476a 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,51 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _get_entity_coeffs(
+    coeffs: FloatingArray, n_entities: int, interior_facet: bool
+) -> FloatingArray:
+    """Gets a view of the coefficients array with a single row per
+    entity (an interior facet spans two rows of the array).
+
+    Args:
+        coeffs (FloatingArray): (C-contiguous) coefficients array.
+        n_entities (int): Number of entities.
+        interior_facet (bool): Whether the entities are interior facets.
+
+    Returns:
+        FloatingArray: View of the coefficients.
+    """
+
+    n_rows = 2 if interior_facet else 1
+    return coeffs[: n_entities * n_rows].reshape(n_entities, n_rows * coeffs.shape[1])
+
+
+def _copy_old_coeffs(
+    old_coeffs: FloatingArray, new_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """Copies the standard coefficients into the (wider) array of custom
+    coefficients.
+
+    For interior facets, DOLFINx and the kernels assume the coefficients
+    of both sides (two consecutive rows) to be contiguous. Thus, the
+    extra columns must come after the values of both sides.
+
+    Args:
+        old_coeffs (FloatingArray): Standard coefficients.
+        new_coeffs (FloatingArray): Custom coefficients to be modified.
+        interior_facet (bool): Whether they correspond to interior
+            facets.
+    """
+
+    if old_coeffs.size == 0:
+        return
+
+    n_entities = old_coeffs.shape[0] // (2 if interior_facet else 1)
+    old = _get_entity_coeffs(np.ascontiguousarray(old_coeffs), n_entities, interior_facet)
+    new = _get_entity_coeffs(new_coeffs, n_entities, interior_facet)
+    new[:, : old.shape[1]] = old
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -425,6 +470,11 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[empty_ids] = 0
 
+        # For interior facets, the coefficients of both sides are stored
+        # contiguously, and the offset is placed right after them.
+        if interior_facet:
+            all_rel_offsets = np.ascontiguousarray(all_rel_offsets[::2])
+
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
         # complex64) one intp spans n_extra_cols cells and the direct
@@ -450,7 +500,9 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        n_old_cols = self._old_coeffs.shape[1] * (2 if interior_facet else 1)
+        entity_coeffs = _get_entity_coeffs(self._new_coeffs, n_tot_entities, interior_facet)
+        entity_coeffs[:, n_old_cols : n_old_cols + n_extra_cols] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -802,8 +854,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_old_coeffs(self._old_coeffs, self._new_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -992,9 +1043,8 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            _copy_old_coeffs(_new_coeffs_dlf, c, itg_info[0] == IntegralType.interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 5619a198eacbaeba1c36d567a7ca82e91411a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 21/71] fix: place the points of cut interior facets where they
 were generated

The points of interior facets (and mixed-dimensional integrals) are given
in the facet as seen from the cell, but they were permuted as if they were
referred to the reference orientation of the facet, ending up in the
mirrored part of the facet for cells with non-identity permutations.
---
 python/qugar/dolfinx/custom_coefficients.py | 15 +++++++++++++++
 python/qugar/dolfinx/custom_quad_utils.py   | 12 ++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a8a476a..d9de47e 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -633,6 +633,21 @@ class _CustomCoeffsPackerIntegral:
             degree, custom_facets, self._is_exterior_facet()
         )
 
+        if self._is_interior_facet() or self._is_mixed_dim():
+            # The generated points are referred to the facet as seen
+            # from its cell. They are transformed to the reference
+            # orientation of the facet, that is the one assumed when
+            # permuting the points for mapping them to every cell.
+            n_pts = quad_facet.n_pts_per_entity
+            points = permute_facet_points(
+                quad_facet.points,
+                self._mesh,
+                np.repeat(custom_facets.cell_ids.reshape(-1), n_pts),
+                np.repeat(custom_facets.local_facet_ids.reshape(-1), n_pts),
+                inverse=True,
+            )
+            quad_facet = quad_facet._replace(points=points)
+
         quad = self._map_facet_quadrature(quad_facet, custom_facets)
 
         if not self._is_interior_facet():
diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index 7fdf1a9..b5c5b06 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -157,6 +157,7 @@ def _permute_points(
     points: npt.NDArray[np.float64],
     permutations: npt.NDArray[np.uint8],
     facet_cell: ufl.AbstractCell,
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the given points.
 
@@ -171,6 +172,8 @@ def _permute_points(
         facet_cell (ufl.AbstractCell): Cell type of the facet in which
             the permutations are applied. It can be ``interval``,
             ``triangle``, or ``quadrilateral``.
+        inverse (bool): Whether the inverse permutations must be
+            applied. Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -187,7 +190,7 @@ def _permute_points(
         if perm == 0:
             continue
         ids = np.where(permutations == perm)[0]
-        P = Ps[perm].T
+        P = (np.linalg.inv(Ps[perm]) if inverse else Ps[perm]).T
         perm_points[ids, :] = hom_points[ids, :] @ P[:, :-1]
 
     return perm_points
@@ -230,6 +233,7 @@ def permute_facet_points(
     mesh: dolfinx.mesh.Mesh,
     cells: npt.NDArray[np.int32],
     facets: npt.NDArray[np.int32],
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the points belonging to (interior or exterior) facet
     accoring to the facet permutations.
@@ -241,6 +245,10 @@ def permute_facet_points(
             belong.
         facets (npt.NDArray[np.int32]): Local facet ids (relative) to
             the reference cell for which the permutations are performed.
+        inverse (bool): If ``True``, the inverse permutations are
+            applied. I.e., points referred to the facet as seen from the
+            cell are transformed to its (unique) reference orientation.
+            Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -252,4 +260,4 @@ def permute_facet_points(
     face_tdim = cell.topological_dimension() - 1
     facet_cell = cell.sub_entity_types(face_tdim)[0]
 
-    return _permute_points(points, perms, facet_cell)
+    return _permute_points(points, perms, facet_cell, inverse)
-- 
2.43.0


From 00352aa13b5a85dbec2aa9ee0edeb7faeec2b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 22/71] fix: request the scratch memory of custom kernels only
 once

---
 python/qugar/dolfinx/codegeneration.py | 83 +++++++++++++++-----------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 041596b..7673c4d 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -472,6 +472,25 @@ class _IntegralModifier:
                 call_code += f",\n{indent}&{normals_name}"
             call_code += ");\n\n"
 
+        # All the quadratures share one single scratch: requesting it again
+        # invalidates what was stored (or pointed to) before.
+        scratch_var = "scratch"
+        scratch_terms: list[str] = []
+        tabulate_code = ""
+
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
+
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
+        for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
+            quad_name = quad_data.name
+            points_name = f"points_{quad_name}"
+            points_side1_name = f"points_side1_{quad_name}"
+            points_facet_name = f"points_facet_{quad_name}"
+            n_pts_name = f"n_pts_Q{quad_name}"
+
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
@@ -495,7 +514,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -521,20 +539,6 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
-
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
-
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
-
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
                  any_perm, blk_size_expr) = gd
@@ -548,32 +552,32 @@ class _IntegralModifier:
                            if (mixed_dim and gdim != tdim)
                            else points_name)
 
-                call_code += (
+                tabulate_code += (
                     f"const int {handle} = qugar_register_element_{suffix}"
                     f"({fam}, {cell}, {deg}, {lv}, {dv}, {disc});\n"
                     f"if ({handle} < 0) return;\n"
                 )
-                call_code += (
+                tabulate_code += (
                     f"{dtype_str}* {blk0} = {scratch_var} + ({_cur_offset()});\n"
                 )
                 offsets.append(blk_size_expr)
-                call_code += (
+                tabulate_code += (
                     f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, {pts_var}, "
                     f"{n_pts_name}, {gdim}, {blk0}, "
                     f"(long)({blk_size_expr})) != 0) return;\n"
                 )
                 if any_perm:
-                    call_code += (
+                    tabulate_code += (
                         f"{dtype_str}* {blk1} = {scratch_var} + "
                         f"({_cur_offset()});\n"
                     )
                     offsets.append(blk_size_expr)
-                    call_code += (
+                    tabulate_code += (
                         f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, "
                         f"{points_side1_name}, {n_pts_name}, {gdim}, "
                         f"{blk1}, (long)({blk_size_expr})) != 0) return;\n"
                     )
-                call_code += "\n"
+                tabulate_code += "\n"
 
                 for table, info in items:
                     funcs = table.funcs
@@ -587,18 +591,18 @@ class _IntegralModifier:
                         # directly into the block -- no copy.
                         off_in_blk = f"{didx} * {n_pts_name} * {funcs}"
                         if two_sided:
-                            call_code += (
+                            tabulate_code += (
                                 f"const {dtype_str}* restrict "
                                 f"{table.name}[2];\n"
                             )
-                            call_code += (
+                            tabulate_code += (
                                 f"{table.name}[0] = {blk0} + {off_in_blk};\n"
                             )
-                            call_code += (
+                            tabulate_code += (
                                 f"{table.name}[1] = {blk1} + {off_in_blk};\n\n"
                             )
                         else:
-                            call_code += (
+                            tabulate_code += (
                                 f"const {dtype_str}* restrict {table.name} = "
                                 f"{blk0} + {off_in_blk};\n\n"
                             )
@@ -627,38 +631,45 @@ class _IntegralModifier:
                     if two_sided:
                         buf0 = f"{table.name}_buf_0"
                         buf1 = f"{table.name}_buf_1"
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf0} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf1} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf0, blk0)
-                        call_code += _repack_into(buf1, blk1)
-                        call_code += (
+                        tabulate_code += _repack_into(buf0, blk0)
+                        tabulate_code += _repack_into(buf1, blk1)
+                        tabulate_code += (
                             f"const {dtype_str}* restrict "
                             f"{table.name}[2];\n"
                         )
-                        call_code += f"{table.name}[0] = {buf0};\n"
-                        call_code += f"{table.name}[1] = {buf1};\n\n"
+                        tabulate_code += f"{table.name}[0] = {buf0};\n"
+                        tabulate_code += f"{table.name}[1] = {buf1};\n\n"
                     else:
                         buf = f"{table.name}_buf"
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf, blk0)
-                        call_code += (
+                        tabulate_code += _repack_into(buf, blk0)
+                        tabulate_code += (
                             f"const {dtype_str}* restrict {table.name} = "
                             f"{buf};\n\n"
                         )
 
-        return call_code
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
+
+        return call_code + tabulate_code
 
     def _create_non_custom_quad_function(self) -> str:
         """Creates a copy of the original FFCx function (signature +
-- 
2.43.0


From d8332f94704e45d8c5606b6b95cc6f4fef7b6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 23/71] fix: accept facet integrals that access one single side

---
 python/qugar/dolfinx/codegeneration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 7673c4d..8199da3 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -224,13 +224,13 @@ class _IntegralModifier:
             "interior_facet": set([0, 1]),
         }
         idx = _collected_indices(r"entity_local_index\[(\w+)\]")
-        if idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'entity_local_index' array."
             )
 
         idx = _collected_indices(r"quadrature_permutation\[(\w+)\]")
-        if len(idx) > 0 and idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'quadrature_permutation' array."
             )
-- 
2.43.0


From 8747ea4fe4d429b5bfdab04f6ec9783130ef84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 24/71] fix: keep the highest degree of the quadratures sharing
 points

---
 python/qugar/dolfinx/quadrature_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..7ca02a4 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,10 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Different degrees may share the same (static) points.
+                # In that case, the highest degree is kept.
+                prev_data = quads_data.get(quad_data.name)
+                if prev_data is None or prev_data.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From 4aff46c006b35ba8b93b8be68d85a7a7eea6d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 25/71] fix: index the custom points of one-point static
 quadratures

---
 python/qugar/dolfinx/fe_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..7834b1f 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -435,7 +435,11 @@ class FETable:
 
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        point_index, func_index = indices[2:]
+        if self._points == 1 and self._table_type in ["fixed", "piecewise"]:
+            # FFCx drops the index of the (single) static point.
+            point_index = "iq"
+        for index, offset in zip([point_index, func_index], offsets):
             new_index = transform_index(index)
             if new_index != 0:
                 terms.append(f"{offset}{index}")
-- 
2.43.0


From b3d95c5c7d9aed79d061e0b955e6238bbbb79ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 26/71] fix: tabulate both sides of every facet-dependent table

---
 python/qugar/dolfinx/codegeneration.py | 15 +++++++--------
 python/qugar/dolfinx/fe_table.py       | 22 ++++++++++++++++++----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 8199da3..0d4868b 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -494,10 +494,10 @@ class _IntegralModifier:
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
-            # agree on both sides).
+            # with two-sided tables, two basix blocks are produced (one per
+            # side) and those tables get an FE..[2] array of per-side
+            # buffers; the others stay single-buffer (their values agree
+            # on both sides).
             #
             # All buffers (basix blocks + per-table repack buffers when
             # vs > 1) live in a SINGLE thread-local scratch obtained from
@@ -519,8 +519,7 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_perm = any(t.is_two_sided() for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -534,7 +533,7 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if table.is_two_sided():
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
@@ -582,7 +581,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = table.is_two_sided()
 
                     if vs == 1:
                         # The basix block's layout already matches the
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index 7834b1f..ad1fcd9 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -219,6 +219,18 @@ class FETable:
             "ones",
         ]
 
+    def is_two_sided(self) -> bool:
+        """Checks if the values of the table differ from one side of an
+        interior facet to the other, i.e., if they depend on the
+        permutation or the local index of the facet.
+
+        Returns:
+            bool: Whether the table must be computed at both sides.
+        """
+        return self._integral_type == "interior_facet" and (
+            self._permutations > 1 or self._entities > 1
+        )
+
     @property
     def FE_id(self) -> int:
         """Returns the id of the table."""
@@ -400,7 +412,7 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
+        In the case the table is different at both sides (of interior
         facet integrals), the access will be something like
         ``FE_C0_D10_Q48f[i][index]``.
 
@@ -417,9 +429,11 @@ class FETable:
         assert not self.is_constant_for_pts()
 
         perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+        if has_permutations and self.is_two_sided():
+            match = re.search(
+                r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]",
+                indices[0] if self._permutations > 1 else indices[1],
+            )
             assert match
             perm_index = int(match.group(1))
 
-- 
2.43.0


From 84dde81cf80837b988a1827f865f9ea334ac538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 27/71] fix: take the element of a reused table from the
 terminal naming it

---
 python/qugar/dolfinx/fe_table.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index ad1fcd9..6751155 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -501,6 +501,27 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
     return FE_tables
 
 
+def _is_table_name_of_terminal(name: str, mte: tuple) -> bool:
+    """Checks if the component and derivatives in a table name are the
+    ones of the given terminal.
+
+    Args:
+        name (str): Table name. See ``FETable._parse_FE_extra_options``.
+        mte (tuple): FFCx's (named) tuple with the element, average,
+            local derivatives and flat component of the terminal.
+
+    Returns:
+        bool: Whether the name corresponds to the terminal.
+    """
+    _, _, local_derivatives, flat_component = mte
+    match = re.match(r"FE\d+_C(\d+)(?:_D(\d+))?", name)
+    if match is None or int(match.group(1)) != flat_component:
+        return False
+    derivatives = [int(der) for der in match.group(2) or ""]
+    directions = [d for d, der in enumerate(derivatives) for _ in range(der)]
+    return directions == sorted(local_derivatives)
+
+
 def _build_table_name_to_element_map(
     ir_itg: IntegralIR,
 ) -> dict[str, BasixElement]:
@@ -527,7 +548,11 @@ def _build_table_name_to_element_map(
             mte = get_modified_terminal_element(mt)
             if mte is None:
                 continue
-            result[tr.name] = mte.element
+            # FFCx reuses a table for all the terminals with the same
+            # values. The component and derivatives in its name only
+            # make sense for the element of the terminal naming it.
+            if tr.name not in result or _is_table_name_of_terminal(tr.name, mte):
+                result[tr.name] = mte.element
     return result
 
 
-- 
2.43.0


From e4e9849f8429efb64feb31bd00ec809590d141e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 28/71] fix: refuse elements that the tabulation shim cannot
 create

---
 python/qugar/dolfinx/codegeneration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 0d4868b..9e51336 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -319,6 +319,12 @@ class _IntegralModifier:
         block_size = getattr(el, "block_size", 1)
         scalar = el.sub_elements[0] if block_size > 1 else el
         be = scalar.basix_element
+        if be.family == basix.ElementFamily.custom or list(be.dof_ordering):
+            # The shim can only create elements from these parameters.
+            raise ValueError(
+                "Custom elements and elements with a non-default ordering of the "
+                f"degrees of freedom are not supported: {el}."
+            )
         params = (
             int(be.family),
             int(be.cell_type),
-- 
2.43.0


From 81c8c324f5aa44a880a7b89b9c61d65ebd8dcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 29/71] fix: do not mix up quadratures of different integrals
 with the same name

---
 python/qugar/dolfinx/integral_data.py   |  2 +-
 python/qugar/dolfinx/quadrature_data.py | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..9ba87cb 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -172,7 +172,7 @@ def extract_integral_data(
 
     short_itg_name = itg_name[len("integral_") :]
 
-    all_quads_data = extract_quadrature_data(ufl_analysis, ffcx_options)
+    all_quads_data = extract_quadrature_data(ufl_analysis, itg_ir, ffcx_options)
     FE_tables = extract_FE_tables(itg_impl, itg_ir, all_quads_data, tdim)
 
     is_mixed_dim = False
diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7ca02a4..0493c4d 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -22,6 +22,7 @@ import numpy as np
 import numpy.typing as npt
 import ufl.algorithms.formdata
 import ufl.integral
+from ffcx.ir.representation import IntegralIR
 from ffcx.ir.representationutils import (
     QuadratureRule,
     create_quadrature_points_and_weights,
@@ -117,14 +118,21 @@ def _extract_single_quadrature_data(
 
 def extract_quadrature_data(
     ufl_data: ffcx.analysis.UFLData,
+    itg_ir: IntegralIR,
     ffcx_options: dict[str, int | float | npt.DTypeLike],
 ) -> dict[str, QuadratureData]:
     """Extracts all the quadrature data associated to the given
-    `ufl_data`.
+    `ufl_data` that is used by the integral `itg_ir`.
+
+    Note:
+        The (short) names of the quadratures are only unique inside each
+        integral.
 
     Args:
         ufl_data (ffcx.analysis.UFLData): UFL (analysis) data from which
             the quadrature data is extracted.
+        itg_ir (IntegralIR): FFCx Intermediate Representation of the
+            integral.
         ffcx_options (dict[str, int  |  float  |  npt.DTypeLike]): FFCx
             compilation options for the given UFL integrand (and form).
 
@@ -134,11 +142,14 @@ def extract_quadrature_data(
     """
 
     quads_data = {}
+    used_rules = {hash(rule) for _cell_type, rule in itg_ir.expression.integrand.keys()}
 
     for fd in ufl_data.form_data:
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
+                if hash(quad_data.rule) not in used_rules:
+                    continue
                 # Different degrees may share the same (static) points.
                 # In that case, the highest degree is kept.
                 prev_data = quads_data.get(quad_data.name)
-- 
2.43.0


From aa793277536ef0647f0772e2c4f9869c1dfc57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 30/71] fix: leave the given form untouched when compiling it
 for unfitted domains

---
 python/qugar/dolfinx/forms.py | 72 +++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..6536187 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -24,6 +24,7 @@ import collections.abc
 import types
 import typing
 from itertools import chain
+from numbers import Integral
 
 from qugar.utils import has_FEniCSx
 
@@ -141,41 +142,57 @@ def _modify_everywhere_exterior_facet_integrals(form):
     case of unfitted meshes, exterior facets integral may need to be
     computed over non exterior facets.
 
+    Note:
+        Neither the given form nor its integrals (that may be shared
+        with other forms) or their metadata (that is shared with the
+        measures) are modified.
+
     Args:
         form: The dolfinx form object.
 
     Returns:
-        The modified dolfinx form object.
+        A new form with the modified integrals, or the given form
+        itself if there is nothing to modify.
     """
 
-    def _get_max_subdomain_id():
-        subdomain_id = -1
-        for integral in form.integrals():
-            if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
-        return subdomain_id + 1
+    def _is_everywhere(integral):
+        return integral.integral_type() == "exterior_facet" and (
+            integral.subdomain_id() in ("everywhere", -1)
+        )
 
-    old_integrals = list(form.integrals())
+    def _get_ids(integral):
+        ids = integral.subdomain_id()
+        return [i for i in (ids if isinstance(ids, tuple) else (ids,)) if isinstance(i, Integral)]
 
-    for i, integral in enumerate(form.integrals()):
-        if integral.integral_type() == "exterior_facet":
-            # Check if the integral is over the whole domain
-            if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
-                )
+    integrals = form.integrals()
+    if not any(_is_everywhere(integral) for integral in integrals):
+        return form
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+    new_id = 0
+    for integral in integrals:
+        if integral.integral_type() == "exterior_facet":
+            ids = _get_ids(integral)
+            # All the entries of a list of integration entities are
+            # attached to the form, also those not used by it.
+            if isinstance(integral.subdomain_data(), list):
+                ids += [entry[0] for entry in integral.subdomain_data()]
+            new_id = max([new_id, *(int(i) + 1 for i in ids)])
+
+    new_integrals = []
+    for integral in integrals:
+        if _is_everywhere(integral):
+            integral = type(integral)(
+                integral.integrand(),
+                integral.integral_type(),
+                integral.ufl_domain(),
+                new_id,
+                {**integral.metadata(), "ext_facet_everywhere": True},
+                None,
+            )
+            new_id += 1
+        new_integrals.append(integral)
 
-    return form, tuple(old_integrals)
+    return ufl.Form(new_integrals)
 
 
 def form_custom(
@@ -246,7 +263,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -334,9 +351,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From a16859d8820c0c85be49e2afa62d61d10c08db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 31/71] fix: find the subdomain data of a form with everywhere
 integrals before it

---
 python/qugar/dolfinx/forms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 6536187..4e208f5 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -274,8 +274,11 @@ def form_custom(
         assert isinstance(unf_domain, UnfittedDomainABC)
 
         # Check that subdomain data for each integral type is the same
-        for data in sd.get(domain).values():
-            assert all([d is data[0] for d in data if d is not None])
+        subdomain_data = {}
+        for itg_type, all_data in sd.get(domain).items():
+            data = [d for d in all_data if d is not None]
+            assert all([d is data[0] for d in data])
+            subdomain_data[itg_type] = data[0] if data else None
 
         msh = domain.ufl_cargo()
         if msh is None:
@@ -342,9 +345,9 @@ def form_custom(
         # types)
         subdomains = {
             _ufl_to_dolfinx_domain[key]: get_integration_domains(
-                _ufl_to_dolfinx_domain[key], subdomain_data[0], subdomain_ids[key]
+                _ufl_to_dolfinx_domain[key], data, subdomain_ids[key]
             )
-            for (key, subdomain_data) in sd.get(domain).items()
+            for (key, data) in subdomain_data.items()
         }
 
         for subdomain_id in everywhere_ext_facet_ids:
-- 
2.43.0


From 3c79bb2da8f4a39c17e3cd7dc4275c1d2b0682e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 32/71] fix: return the forms of a list

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 4e208f5..e635251 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -375,6 +375,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From 49c5aea60fde0aa21ebc5642e5d7a12889f155e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 33/71] fix: apply the boundary correction once for several
 subdomain ids

---
 python/qugar/dolfinx/boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..13e2358 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,10 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # The base class multiplies the integrand by one measure (of
+            # this same class) for each id: they apply the correction.
+            return super().__rmul__(integrand)
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 4462ee52ec52adcdbb11f36978b4554f38269557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 34/71] fix: update the coefficients of each form of a list
 from its own ones

---
 python/qugar/dolfinx/petsc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..ff92531 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,22 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray],
+                        _update(sub_form, sub_coeffs),
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From 368752afdfb15f92b51cfb8ac24d9e07c38e5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 35/71] fix: do not inherit the PETSc options of a deleted
 linear problem

---
 python/qugar/dolfinx/petsc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index ff92531..1c8e74d 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -22,6 +22,7 @@
 built on top of unfitted domains.
 """
 
+import itertools
 import typing
 
 from petsc4py import PETSc
@@ -46,6 +47,9 @@ from dolfinx.la.petsc import create_vector_wrap as create_petsc_vector_wrap
 
 from qugar.dolfinx import CustomForm, form_custom
 
+# Numbers of the problems for their prefixes in PETSc's (global) options.
+_problem_ids = itertools.count()
+
 
 def _pack_coefficients(
     form: CustomForm | list[CustomForm],
@@ -216,7 +220,9 @@ class LinearProblem(dolfinx.fem.petsc.LinearProblem):
         self._solver.setOperators(self._A)
 
         # Give PETSc solver options a unique prefix
-        problem_prefix = f"dolfinx_solve_{id(self)}"
+        # (``id(self)`` may have been the one of a deleted problem, whose
+        # options are still there).
+        problem_prefix = f"qugar_solve_{next(_problem_ids)}_"
         self._solver.setOptionsPrefix(problem_prefix)
 
         # Set PETSc options
-- 
2.43.0


From c81442c908e98ce94ae856fa5bbc7541f0f2aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 36/71] fix: mark the status of the right cells when exporting
 an unfitted domain

---
 python/qugar/plot/pyvista_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..6ea081c 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -623,6 +623,13 @@ def unfitted_domain_to_PyVista(
     value[full_cells] = full
     status[full_cells] = 0
 
+    if not is_cpp:
+        # The grid's cells are sorted lexicographically, while the cut and full
+        # cells follow the DOLFINx local numbering.
+        dlf_cells = grid.cell_data["DOLFINx local cell ids"]
+        value = value[dlf_cells]
+        status = status[dlf_cells]
+
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
 
-- 
2.43.0


From f0682b2686875e9ab7c48ed61bb802936b1c43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 37/71] fix: translate the facets of an unfitted domain into
 the ones of the exported grid

---
 python/qugar/plot/pyvista_tools.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 6ea081c..b3f3593 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -44,6 +44,7 @@ from qugar.mesh import (
     DOLFINx_to_lexicg_faces,
     VTK_to_lexicg_faces,
     VTK_to_lexicg_nodes,
+    lexicg_to_DOLFINx_faces,
     lexicg_to_VTK_faces,
 )
 
@@ -525,10 +526,14 @@ def unfitted_domain_facets_to_PyVista(
             FEniCSx installation is not found.
     """
 
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
+    if not is_cpp:
+        dlf_cells = grid.cell_data["DOLFINx local cell ids"]
 
-    dim = domain.tdim
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
@@ -545,6 +550,16 @@ def unfitted_domain_facets_to_PyVista(
 
     vtk_lex_mask = VTK_to_lexicg_faces(dim)
 
+    def _get_lexicg_facets(facets: Any) -> tuple[npt.NDArray[np.int64], npt.NDArray[np.int32]]:
+        """Positions of the facets' cells in the grid and their lexicographical local ids."""
+        if is_cpp:
+            return facets
+        # The facets follow the DOLFINx local numbering.
+        cells_pos = np.empty(n_cells, dtype=np.int64)
+        cells_pos[dlf_cells] = np.arange(n_cells)
+        lex_dlf_mask = lexicg_to_DOLFINx_faces(dim)
+        return cells_pos[facets.cell_ids], lex_dlf_mask[facets.local_facet_ids]
+
     active_facets = np.empty(0, dtype=np.int32)
 
     facets = {}
@@ -555,9 +570,10 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, status_facets in facets.items():
+        lex_cells, lex_facets = _get_lexicg_facets(status_facets)
+        vtk_facets = vtk_lex_mask[lex_facets]
+        vtk_cells = lex_cells * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +585,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From 354056f8b6e112e4939537a212d11b22c86bab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 38/71] fix: TensorIndexTP::operator< is a lexicographic order

Indices were not ordered by the last component that differs: (0,1) < (5,0)
as well as (5,0) < (0,1) could both be false.
---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From b17b4078df32216df349136e25bb117f2c8bbcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 39/71] fix: TensorIndexTP computes its total size in 64 bits

The product of the sizes overflowed int for sizes with more than 2^31 entries,
although flat indices are 64-bit.
---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..56c2792 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= static_cast<std::int64_t>(size(dir));
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
-- 
2.43.0


From eb5af9ffa35e60ac71817bf23acbfceed1e6c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 40/71] fix: empty tensor index ranges have nothing to iterate

begin() differed from end() when only some of the directions were empty, and
indices outside of the range were visited.
---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..ac16cc8 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,9 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From fe667a4c9eca109268d7743b2fba8008f56c503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 41/71] fix: affine maps with small determinants can be
 inverted

The determinant was compared against an absolute tolerance near machine epsilon,
so that the inverse of a 3D map scaling by 1e-5 failed an assertion.
---
 cpp/qugar/affine_transf.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..a34952b 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -45,10 +45,7 @@ namespace {
     const auto &mat = matrix;
 
     const real det = (mat(0) * mat(3)) - (mat(1) * mat(2));
-#ifndef NDEBUG
-    const bool is_zero = Tolerance().is_zero(det);
-    assert(!is_zero);
-#endif// NDEBUG
+    assert(det != numbers::zero);
     const real inv_det = numbers::one / det;
 
     Vector<real, 4> inv_matrix;
@@ -67,10 +64,7 @@ namespace {
     // computes the inverse of a matrix m
     const real det = mat(0) * (mat(4) * mat(8) - mat(7) * mat(5)) - mat(1) * (mat(3) * mat(8) - mat(5) * mat(6))
                      + mat(2) * (mat(3) * mat(7) - mat(4) * mat(6));
-#ifndef NDEBUG
-    const bool is_zero = Tolerance().is_zero(det);
-    assert(!is_zero);
-#endif// NDEBUG
+    assert(det != numbers::zero);
     const real inv_det = numbers::one / det;
 
     return Vector<real, 9>{
-- 
2.43.0


From 3a13fbb63f1ed8fb774e0b126569d866aa4c134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 42/71] fix: create_reference_system_around_axis for axes along
 x

The y-axis was computed from its own (almost null) previous value and was neither
unitary nor normal to the other axes.
---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index a34952b..7fc4bc4 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -137,7 +137,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From 40e9977ec5df15edcdf08ab3d3cdc99ddd89ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 43/71] fix: 3D quadratures in boxes away from the origin

The origin of the box was added to the weights instead of to the points.
---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From dbdfe3aeefcd8e3a1d3f1df23b61faddd9d6b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 44/71] fix: gradient of monomials constant along a direction
 counted that direction's coefficient twice

---
 cpp/qugar/monomials_tp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..52f84e0 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -286,7 +286,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From 01fbfe9c46cb5d25d4b87dfc164de884bf875c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 45/71] fix: upper facets of monomials took the highest-degree
 terms instead of the value at 1

---
 cpp/qugar/monomials_tp.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 52f84e0..cc11e9f 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,23 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
 
   TensorIndexTP<dim> lower_bound(0);
   TensorIndexTP<dim> upper_bound(this->get_order());
-  if (side == 0) {
-    upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
-  }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
 
-  auto new_coef = new_coefs.begin();
-  for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+  // At the side 0 (coordinate 0) only the constant term along const_dir survives,
+  // while at the side 1 (coordinate 1) all the terms are summed up.
+  const int n_terms = side == 0 ? 1 : this->get_order(const_dir);
+  for (int term = 0; term < n_terms; ++term) {
+    lower_bound(const_dir) = term;
+    upper_bound(const_dir) = term + 1;
+    const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
+
+    auto new_coef = new_coefs.begin();
+    for (const auto &tid : indices_range) {
+      *new_coef++ += at(this->coefs_, tid.flat(this->get_order()));
+    }
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From 8292a85031c1d0807164f8cd5cf307731e86c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 46/71] fix: assigning a Bezier of another order left its array
 view on the old coefficients

---
 cpp/include/qugar/bezier_tp.hpp |  9 +++++++++
 cpp/qugar/bezier_tp.cpp         | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/cpp/include/qugar/bezier_tp.hpp b/cpp/include/qugar/bezier_tp.hpp
index f36b8f8..4cf38cc 100644
--- a/cpp/include/qugar/bezier_tp.hpp
+++ b/cpp/include/qugar/bezier_tp.hpp
@@ -85,6 +85,15 @@ public:
   //! @param bezier Bezier to copy.
   BezierTP(const BezierTP<dim, range> &bezier);
 
+  //! @brief Copy assignment operator.
+  //!
+  //! @param bezier Bezier to copy.
+  //! @return Reference to the current Bezier.
+  BezierTP<dim, range> &operator=(const BezierTP<dim, range> &bezier);
+
+  //! @brief Default destructor.
+  ~BezierTP() override = default;
+
   //! @brief Constructor.
   //!
   //! Constructs from monomials.
diff --git a/cpp/qugar/bezier_tp.cpp b/cpp/qugar/bezier_tp.cpp
index 02e5d55..72d7d66 100644
--- a/cpp/qugar/bezier_tp.cpp
+++ b/cpp/qugar/bezier_tp.cpp
@@ -64,6 +64,19 @@ template<int dim, int range>
 BezierTP<dim, range>::BezierTP(const BezierTP<dim, range> &bezier) : BezierTP(bezier.get_order(), bezier.get_coefs())
 {}
 
+template<int dim, int range> BezierTP<dim, range> &BezierTP<dim, range>::operator=(const BezierTP<dim, range> &bezier)
+{
+  if (this != &bezier) {
+    Parent::operator=(bezier);
+
+    // Note: the assignment of xarrays copies their elements, but here the view
+    // must be bound to the (possibly reallocated) coefficients of this object.
+    std::destroy_at(&this->coefs_xarray_);
+    std::construct_at(&this->coefs_xarray_, this->coefs_.data(), permute_vector_directions(this->order_));
+  }
+  return *this;
+}
+
 template<int dim, int range>
 BezierTP<dim, range>::BezierTP(const MonomialsTP<dim, range> &monomials) : BezierTP(monomials.get_order())
 {
-- 
2.43.0


From e6247a84c209ec19d556e197dc1e9bad55bb149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 47/71] fix: gradient and Hessian of the annulus did not derive
 its value

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..71af286 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -494,13 +494,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const T aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From 58a97845d36027858b83abcad175e51cec346ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 48/71] fix: Hessian of the cylinder ignored its axis

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 71af286..9b51f48 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From 7df397f841d3d11279e02160a56d28b22ff377ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 49/71] fix: mixed yz derivative of the trilinear function
 mixed up corners

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..f938b15 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      (cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From b3d902251520a72625f0e7a8aeefc7d19e80014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 50/71] fix: mixed xz derivative of the Schoen gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..9fd8cf0 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(0)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From 0b7ae050cb26ad38bdebdc1d77e5c9629ac2af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 51/71] fix: y derivative of the Schoen IWP surface used the
 period along x

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index 9fd8cf0..a2344a6 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From 0be209616ade11f77aaef7fe370ef96dd36ea035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 52/71] fix: Hessian of the square was not implemented and
 aborted

---
 cpp/qugar/impl_funcs_lib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index f938b15..e7425a6 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -83,9 +83,8 @@ template<int dim> template<typename T> Vector<T, dim> Square<dim>::grad_(const P
 
 template<int dim> template<typename T> auto Square<dim>::hessian_(const Vector<T, dim> & /*point*/) const -> Hessian<T>
 {
-  // Not implemented.
-  assert(false);
-  return Hessian<T>{};
+  // Piecewise linear function.
+  return Hessian<T>{ numbers::zero };
 }
 
 template<int dim> template<typename T> int Square<dim>::sgn(const T &val)
-- 
2.43.0


From ad6b913edba23af63ce06626a962566e37fd4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 53/71] fix: interval evaluation of the square did not enclose
 its values near corners and axes

---
 cpp/qugar/impl_funcs_lib.cpp | 91 ++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 19 deletions(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index e7425a6..cba459f 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -25,6 +25,9 @@
 #include <qugar/types.hpp>
 #include <qugar/vector.hpp>
 
+#include <algoim/interval.hpp>
+
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cmath>
@@ -41,44 +44,94 @@ FuncWithAffineTransf<dim>::FuncWithAffineTransf(const AffineTransf<dim> &transf)
 {}
 
 
+namespace {
+
+  //! @brief Computes an enclosure of the absolute value of an interval.
+  template<int dim> ::algoim::Interval<dim> abs_enclosure(const ::algoim::Interval<dim> &val)
+  {
+    const int sign = val.sign();
+    if (sign != 0) {
+      return val * static_cast<real>(sign);
+    }
+    const real half_max = numbers::half * (std::abs(val.alpha) + val.maxDeviation());
+    return ::algoim::Interval<dim>(half_max, Vector<real, dim>(numbers::zero), half_max);
+  }
+
+  //! @brief Computes an enclosure of the maximum of two intervals.
+  template<int dim>
+  ::algoim::Interval<dim> max_enclosure(const ::algoim::Interval<dim> &lhs, const ::algoim::Interval<dim> &rhs)
+  {
+    const int sign = (lhs - rhs).sign();
+    if (sign != 0) {
+      return sign > 0 ? lhs : rhs;
+    }
+    const real lower = std::max(lhs.alpha - lhs.maxDeviation(), rhs.alpha - rhs.maxDeviation());
+    const real upper = std::max(lhs.alpha + lhs.maxDeviation(), rhs.alpha + rhs.maxDeviation());
+    return ::algoim::Interval<dim>(
+      numbers::half * (lower + upper), Vector<real, dim>(numbers::zero), numbers::half * (upper - lower));
+  }
+
+}// namespace
+
 template<int dim> Square<dim>::Square(const AffineTransf<dim> &transf) : FuncWithAffineTransf<dim>(transf) {}
 
 implement_impl_func_transf(Square);
 
 template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff;
-
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff;
+    for (int dir = 0; dir < dim; ++dir) {
       diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
     }
-  }
-
-  if constexpr (std::is_same_v<T, real>) {
     return max(diff);
   } else {
-    const int ind = argmax(diff);
-    return point(ind) * sgn(point(ind)) - numbers::one;
+    T val = abs_enclosure(T(point(0)));
+    for (int dir = 1; dir < dim; ++dir) {
+      val = max_enclosure(val, abs_enclosure(T(point(dir))));
+    }
+    return val - numbers::one;
   }
 }
 
 template<int dim> template<typename T> Vector<T, dim> Square<dim>::grad_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff{};
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff{};
+    for (int dir = 0; dir < dim; ++dir) {
       diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
+    }
 
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
+    const int ind = argmax(diff);
+    return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
+  } else {
+    // The derivative along dir is the sign of that coordinate where its absolute value
+    // is the largest one, and zero otherwise.
+    Vector<T, dim> grad;
+    for (int dir = 0; dir < dim; ++dir) {
+      const T abs_dir = abs_enclosure(T(point(dir)));
+      bool always = true;
+      bool never = false;
+      for (int dir2 = 0; dir2 < dim; ++dir2) {
+        if (dir2 != dir) {
+          const int sign = (abs_dir - abs_enclosure(T(point(dir2)))).sign();
+          always = always && sign > 0;
+          never = never || sign < 0;
+        }
+      }
+
+      const int sign = sgn(point(dir));
+      real lower = never ? numbers::zero : -numbers::one;
+      real upper = never ? numbers::zero : numbers::one;
+      if (!never && sign != 0) {
+        lower = always ? static_cast<real>(sign) : std::min(numbers::zero, static_cast<real>(sign));
+        upper = always ? static_cast<real>(sign) : std::max(numbers::zero, static_cast<real>(sign));
+      }
+      grad(dir) =
+        T(numbers::half * (lower + upper), Vector<real, dim>(numbers::zero), numbers::half * (upper - lower));
     }
+    return grad;
   }
-
-  const int ind = argmax(diff);
-  return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
 }
 
 template<int dim> template<typename T> auto Square<dim>::hessian_(const Vector<T, dim> & /*point*/) const -> Hessian<T>
-- 
2.43.0


From 02363f0e01e1b96a22fe9993a89f5757dfeda6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 54/71] fix: domains of a subset of cells aborted (or
 classified other cells too)

---
 cpp/qugar/impl_unfitted_domain.cpp | 43 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..0a4c0d9 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,24 +108,37 @@ namespace {
     }
   }
 
-  //! Inserts cell IDs from a subgrid into a container.
+  //! Sets the status of the cells of a (sub)tree in which the function has a unique sign.
   //!
-  //! @param subgrid The subgrid from which to extract cell IDs.
-  //! @param target_cells Optional vector of target cell IDs. If provided, only these cells
-  //!                     within the subgrid's range will be inserted into the container.
-  //! @param container The container to store the cell IDs.
-  //!
-  //! If `target_cells` is provided, this function inserts the cell IDs from `target_cells`
-  //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
-  //! all cell IDs from the `subgrid` are inserted into `container`.
+  //! @param tree The tree whose cells' status is set.
+  //! @param target_cells Optional vector of (unique) target cell IDs. If provided, only the status
+  //!                     of these cells is set: the tree is branched until its leaves contain
+  //!                     only target cells, or none of them.
+  //! @param sign Sign of the function in the tree.
   template<int dim>
+  // NOLINTNEXTLINE (misc-no-recursion)
   void insert_cells(UnfittedBinarySpacePart<dim> &tree,
     const std::optional<std::vector<std::int64_t>> &target_cells,
     const FuncSign sign)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
+    if (target_cells.has_value()) {
+      const auto subgrid = tree.get_subgrid();
+      const auto &range = subgrid->get_range();
+      const auto &size = subgrid->get_grid()->get_num_cells_dir();
+      const auto n_targets =
+        std::count_if(target_cells->cbegin(), target_cells->cend(), [&range, &size](const std::int64_t cell_id) {
+          return range.is_in_range(cell_id, size);
+        });
+
+      if (n_targets == 0) {
+        return;
+      } else if (static_cast<std::int64_t>(n_targets) != static_cast<std::int64_t>(subgrid->get_num_cells())) {
+        tree.branch();
+        insert_cells(*tree.get_child(0), target_cells, sign);
+        insert_cells(*tree.get_child(1), target_cells, sign);
+        return;
+      }
+    }
 
     const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
 
@@ -433,8 +446,12 @@ UnfittedImplDomain<dim>::UnfittedImplDomain(const FuncPtr phi,
 {
   assert(this->phi_ != nullptr);
 
+  auto target_cells = cells;
+  std::ranges::sort(target_cells);
+  target_cells.erase(std::unique(target_cells.begin(), target_cells.end()), target_cells.end());
+
   const auto compute_sign = create_compute_sign_function<dim>(*phi);
-  this->create_decomposition(*(this->binary_sp_part_), compute_sign, cells);
+  this->create_decomposition(*(this->binary_sp_part_), compute_sign, target_cells);
   this->init_full_cells_with_unf_bdry();
 }
 
-- 
2.43.0


From 2bdf6a41059b0b2ac58e0fc47ebc32a7fb291b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 55/71] fix: classify Bezier facets lying entirely on the level
 set

Facets of cut cells on which the polynomial vanishes got no point in their
quadrature and were classified as empty, so the part of the unfitted boundary
lying on them was lost in every quadrature.
---
 cpp/qugar/impl_unfitted_domain.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 0a4c0d9..1a84b88 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -376,19 +376,27 @@ namespace {
     constexpr int n_pts_dir{ 1 };
     constexpr auto quad_strategy = alg::QuadStrategy::AlwaysGL;
 
-    alg::ImplicitPolyQuadrature<dim - 1> ipquad(bzr_facet->get_xarray());
-
     QuadRule<dim> facet_quad;
 
-    ipquad.integrate(quad_strategy,
-      n_pts_dir,
-      [&facet_quad, &bzr_facet, side, const_dir](const Vector<real, dim - 1> &perm_point, const real weight) {
-        const auto point = permute_vector_directions(perm_point);
-        if (bzr_facet->operator()(point) < numbers::zero) {
-          const auto sup_point = add_component(point, const_dir, static_cast<real>(side));
-          facet_quad.nodes.emplace_back(sup_point, weight);
-        }
-      });
+    const Tolerance tol;
+    const auto &coefs = bzr_facet->get_coefs();
+    if (std::all_of(coefs.cbegin(), coefs.cend(), [&tol](const real coef) { return tol.is_zero(coef); })) {
+      // The whole facet lies on the levelset: there is no negative part to integrate.
+      const Point<dim - 1> mid_point(numbers::half);
+      facet_quad.nodes.emplace_back(add_component(mid_point, const_dir, static_cast<real>(side)), numbers::one);
+    } else {
+      alg::ImplicitPolyQuadrature<dim - 1> ipquad(bzr_facet->get_xarray());
+
+      ipquad.integrate(quad_strategy,
+        n_pts_dir,
+        [&facet_quad, &bzr_facet, side, const_dir](const Vector<real, dim - 1> &perm_point, const real weight) {
+          const auto point = permute_vector_directions(perm_point);
+          if (bzr_facet->operator()(point) < numbers::zero) {
+            const auto sup_point = add_component(point, const_dir, static_cast<real>(side));
+            facet_quad.nodes.emplace_back(sup_point, weight);
+          }
+        });
+    }
 
     const BoundBox<dim> domain_01;
     return classify_facet_from_quad(bzr_domain, domain_01.to_hyperrectangle(), local_facet_id, cell_status, facet_quad);
-- 
2.43.0


From c7b5f7e785e398d559ced99942028fd8ba24b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 56/71] fix: boundary quadrature on facets whose outside is
 filled kept its points on them

The points of the interface lying on external-boundary facets were not purged
(the call was gated on the other kind of boundary), so they were reported by this
cell and by its neighbour.
---
 cpp/qugar/impl_quadrature.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..e2da317 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -570,9 +570,7 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
-        purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
-      }
+      purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
     }
   } else {
     // it's full with unfitted boundaries.
-- 
2.43.0


From 6cbd7d7165365bcb6cbe8f61324a60ee46c07429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 57/71] fix: quadrature of facets only partially on the
 unfitted boundary failed an assertion

create_facet_quadrature integrates facets that are cut or have an unfitted boundary,
but the integration accepted the former only.
---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index e2da317..372c8fa 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From 7a4b4f402b50855be4ee09f66f475a1a1084018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 58/71] fix: points on external boundaries of cut facets were
 integrated

Points of facets on the level set with the domain on the other side have to be
removed, but they were only where the facet had an unfitted boundary as well.
---
 cpp/qugar/impl_quadrature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 372c8fa..417a58a 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -302,7 +302,7 @@ namespace {
   {
     const bool has_unf_bdry = unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
     purge_unf_bdry = purge_unf_bdry && has_unf_bdry;
-    purge_unf_ext_bdry = purge_unf_ext_bdry && has_unf_bdry;
+    purge_unf_ext_bdry = purge_unf_ext_bdry && unf_domain.has_external_boundary(cell_id, local_facet_id);
     purge_cut = purge_cut && unf_domain.is_cut_facet(cell_id, local_facet_id);
 
     if (!purge_unf_bdry && !purge_unf_ext_bdry && !purge_cut) {
-- 
2.43.0


From 1350e1f553b5091d276f5587e9975295c3f320bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 59/71] fix: interpolate with the mesh's nodes, Chebyshev or
 equispaced, when orienting cells

The Chebyshev flag of the Lagrange polynomials was inverted, and the
orientation of cells always assumed the same nodes whatever the order.
---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From c580712c19960412577dd9d8ff76d7b08ac43f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 60/71] fix: reparameterize Bezier boxes that are completely
 outside as empty meshes

---
 cpp/qugar/impl_reparam_bezier.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..79ab2ed 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,7 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0


From 1f4f6b639941c0b77abf6556c1121a1d909bd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 61/71] fix: refer to the blocks relative to the VTK multiblock
 file's directory

---
 cpp/qugar/reparam_mesh.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index c0c6366..bd2cdea 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -36,6 +36,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstring>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <limits>
@@ -747,8 +748,11 @@ template<int dim, int range> void ReparamMesh<dim, range>::write_VTK_file(const
   stream << R"(<VTKFile type="vtkMultiBlockDataSet" version="1.0" byte_order="LittleEndian">)" << "\n";
   stream << "  <vtkMultiBlockDataSet>\n";
 
-  stream << R"(    <DataSet index="0" name="interior" file=")" << filename << R"(.vtu"/>)" << "\n";
-  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_filename << R"(.vtu"/>)" << "\n";
+  // The datasets' files are referred to relative to the directory of the multiblock file.
+  const auto interior_name = std::filesystem::path(filename).filename().string();
+  const auto wirebasket_name = std::filesystem::path(wirebasket_filename).filename().string();
+  stream << R"(    <DataSet index="0" name="interior" file=")" << interior_name << R"(.vtu"/>)" << "\n";
+  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_name << R"(.vtu"/>)" << "\n";
 
   stream << "  </vtkMultiBlockDataSet>\n";
   stream << "</VTKFile>\n";
-- 
2.43.0


From f13a9690ccd198db4043d2745dc364a30a1305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 62/71] fix: only leaves of the space partition have a status

The assertion was inverted, and asking a leaf for its status aborted.
---
 cpp/qugar/unfitted_domain_binary_part.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/unfitted_domain_binary_part.cpp b/cpp/qugar/unfitted_domain_binary_part.cpp
index 80813cc..3b9b923 100644
--- a/cpp/qugar/unfitted_domain_binary_part.cpp
+++ b/cpp/qugar/unfitted_domain_binary_part.cpp
@@ -62,7 +62,7 @@ template<int dim> void UnfittedBinarySpacePart<dim>::set_status(const ImmersedCe
 
 template<int dim> ImmersedCellStatus UnfittedBinarySpacePart<dim>::get_status() const
 {
-  assert(this->get_child(0) != nullptr && this->get_child(1) != nullptr);
+  assert(this->is_leaf());
   return this->status_;
 }
 
-- 
2.43.0


From 7df639d3e19adaabbc080952b7cc9b29b93e6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 63/71] fix: keep the Gauss rules reused by the quadratures per
 thread

The rules kept between calls were replaced without any protection while
other threads read them.
---
 cpp/qugar/impl_quadrature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 417a58a..b894e83 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -521,7 +521,7 @@ void create_cell_quadrature(const UnfittedImplDomain<dim> &unf_domain,
   } else if (unf_domain.is_full_cell(cell_id)) {
     const int n_pts_per_quad_set = n_pts_dir * n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     }
@@ -622,7 +622,7 @@ void create_facet_quadrature(const UnfittedImplDomain<dim> &unf_domain,
 
     const int n_pts_per_quad_set = n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     }
-- 
2.43.0


From 1deaa9177fa9a1e797d4ba341da6b2485f2967bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 64/71] fix: ids of the boundary cells of grids with more than
 2^31 cells

They were truncated to 32 bits.
---
 cpp/qugar/cart_grid_tp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..fca4eba 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -218,7 +218,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 9429ceeff61e03806643df8b7eb7f91aa8a539e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 65/71] fix: geometry map of Cartesian meshes of degree 3 and
 more

---
 python/qugar/mesh/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index be040b9..3d8a296 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -350,7 +350,12 @@ class Mesh(dolfinx.mesh.Mesh):
             gdim = nodes_coords.shape[1]
 
         element = basix.ufl.element(
-            "Lagrange", cell_type, self.degree, shape=(gdim,), dtype=nodes_coords.dtype
+            "Lagrange",
+            cell_type,
+            self.degree,
+            lagrange_variant=basix.LagrangeVariant.equispaced,
+            shape=(gdim,),
+            dtype=nodes_coords.dtype,
         )
         domain = ufl.Mesh(element)
 
-- 
2.43.0


From c55911fd90b5c7ed6f4719f855dd66441df6cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 66/71] fix: forms with a parametric normal and a plain
 constant share no compiled module

---
 python/qugar/dolfinx/boundary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index 13e2358..abeeb47 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -54,6 +54,14 @@ class ParamNormal(dolfinx.fem.Constant):
         zeros = np.zeros(param_dim, dtype=dtype)
         super().__init__(domain, zeros)
 
+    def _ufl_signature_data_(self, renumbering):
+        """Signature data that tells the normal from a plain constant.
+
+        The signature of a form names its compiled module: the code
+        generated for a normal is not the one of a constant vector.
+        """
+        return f"ParamNormal({super()._ufl_signature_data_(renumbering)})"  # type: ignore
+
 
 def _compute_vector_norm(vec):
     """Computes the norm of a vector.
-- 
2.43.0


From fd4bd1de37d00ed41fe49fc70d2e9c1b5dc2d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 67/71] fix: log handlers after a failed compilation of a form

---
 python/qugar/dolfinx/jit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..5abc30a 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,13 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers (in case someone is logging
+        # into root logger and has custom handlers)
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +194,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From 3c3bd1e2f4f732e93c34e3756232023b6ecbd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:11 +0000
Subject: [PATCH 68/71] fix: boxes with an affine transformation can be created

create_box called create_square_2D and create_square_3D with the
transformation, but in the extension they take no arguments: the version
that takes the transformation is bound as create_square.
---
 python/qugar/impl/impl_function.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..6d952b9 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -565,10 +565,7 @@ def create_box(
             "Non-matching affine transformation and dimension"
         )
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From 9533e8aa0df360e13bb9f1e719822211719aee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:11 +0000
Subject: [PATCH 69/71] fix: default dimension of boxes with an affine
 transformation

The documented default (2) was only applied to boxes without
transformation: for the others an assertion failed.
---
 python/qugar/impl/impl_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 6d952b9..97a026c 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -550,9 +550,10 @@ def create_box(
         AssertionError: If the dimension is not 2 or 3, or if the dimension does not match the
             affine transformation.
     """
+    if dim is None:
+        dim = 2
+
     if affine_trans is None:
-        if dim is None:
-            dim = 2
         assert dim == 2 or dim == 3, "Invalid dimension. It must be 2 or 3"
 
         if dim == 2:
-- 
2.43.0


From 7ce0023b49fd6fbec3a07b21ea5ec29ca8de3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:11 +0000
Subject: [PATCH 70/71] fix: ellipsoids with non-positive semi-axes are
 rejected

As documented and as ellipses do.
---
 python/qugar/impl/impl_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 97a026c..a84203d 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0.0), "Invalid semi-axes. They must be all positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
-- 
2.43.0


From f1aea5992cfea088a6c2bfbb5360fbe228343a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:11 +0000
Subject: [PATCH 71/71] fix: sizes of the centre and axis of tori are checked

The documented AssertionErrors were not raised.
---
 python/qugar/impl/impl_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index a84203d..1b2ebc8 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -344,6 +344,9 @@ def create_torus(
     minor_radius = np.float64(minor_radius)
     assert minor_radius > 0.0, "Invalid outer radius. It must be positive"
 
+    assert center is None or center.size == 3, "Invalid center dimension. It must have 3 coordinates"
+    assert axis is None or axis.size == 3, "Invalid axis dimension. It must have 3 coordinates"
+
     if center is None:
         if axis is None:
             return ImplicitFunc(qugar.cpp.create_torus(major_radius, minor_radius, use_bzr))
-- 
2.43.0

