"""vtk_mesh: cells of a mesh of tensor-product cells in VTK's node order, as DOLFINx does it"""
import itertools

import basix
import numpy as np


def _perm(ct, p):
    """position in DOLFINx order of each node in VTK order"""
    dim = len(basix.topology(ct)) - 1
    e = basix.create_element(basix.ElementFamily.P, ct, p, basix.LagrangeVariant.equispaced)
    where = {tuple(int(round(v * p)) for v in x): i for i, x in enumerate(e.points)}
    V = [v for v in itertools.product((0, 1), repeat=dim)]
    vt = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)]}.get(dim) or \
        [(*v, z) for z in (0, 1) for v in [(0, 0), (1, 0), (1, 1), (0, 1)]]
    ed = {1: [(0, 1)], 2: [(0, 1), (1, 2), (3, 2), (0, 3)]}.get(dim) or \
        [(0, 1), (1, 2), (3, 2), (0, 3), (4, 5), (5, 6), (7, 6), (4, 7), (0, 4), (1, 5), (2, 6), (3, 7)]
    out = [tuple(p * c for c in v) for v in vt]
    for a, b in ed:
        out += [tuple(p * s + i * (t - s) for s, t in zip(vt[a], vt[b])) for i in range(1, p)]
    if dim == 3:
        for d, s in itertools.product(range(3), (0, p)):
            for b, a in itertools.product(range(1, p), repeat=2):
                t = [a, b]
                t.insert(d, s)
                out.append(tuple(t))
    if dim > 1:
        out += [t[::-1] for t in itertools.product(range(1, p), repeat=dim)]
    assert len(V) == len(vt) and len(set(out)) == len(where)
    return [where[t] for t in out]


def vtk_mesh(mesh):
    import pyvista as pv
    p, dim = mesh.geometry.cmap.degree, mesh.topology.dim
    ct = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 1]
    n = mesh.topology.index_map(dim).size_local
    c = mesh.geometry.dofmap[:n][:, _perm(ct, p)]
    cells = np.hstack([np.full((n, 1), c.shape[1], dtype=np.int64), c]).ravel()
    t = ([pv.CellType.LINE, pv.CellType.QUAD, pv.CellType.HEXAHEDRON] if p == 1 else
         [pv.CellType.LAGRANGE_CURVE, pv.CellType.LAGRANGE_QUADRILATERAL, pv.CellType.LAGRANGE_HEXAHEDRON])[dim - 1]
    return cells, np.full(n, int(t), dtype=np.uint8), mesh.geometry.x
