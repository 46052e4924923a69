"""Random Cartesian meshes for the drivers, and what is known about them from geometry
alone."""
import itertools

import numpy as np


def lex_points(axes):
    """Tensor-product points, first direction fastest."""
    return np.array([p[::-1] for p in itertools.product(*[list(a) for a in axes[::-1]])],
                    dtype=axes[0].dtype).reshape(-1, len(axes))


def refine(b, degree):
    out = [b[0]]
    for a, c in zip(b[:-1], b[1:]):
        out += [a + (c - a) * i / degree for i in range(1, degree)] + [c]
    return np.array(out, dtype=b.dtype)


def breaks(rng, n, uniform=False):
    if uniform:
        return np.linspace(*sorted([float(rng.normal()), float(rng.normal()) + 3]), n + 1)
    steps = rng.integers(1, 9, size=n) / 8.0
    return np.concatenate([[0.0], np.cumsum(steps)]) + float(rng.integers(-3, 4))


class Case:
    """meshes[r]: the mesh of rank r. lex ids: first direction fastest."""

    def __init__(self, rng, dims=(1, 2, 3), maxc=None, degree=None, active=0.4, ranks=(1,), n=None, mod=0,
                 factory=None, mesh_seed=None):
        from mpi4py import MPI
        import dolfinx.cpp.mesh as m
        m.seed(int(rng.integers(1 << 31)) if mesh_seed is None else mesh_seed)
        self.dim = int(rng.choice(dims))
        top = maxc or {1: 9, 2: 5, 3: 3}[self.dim]
        self.n = [int(rng.integers(1, top + 1)) for _ in range(self.dim)] if n is None else list(n)
        self.dim = len(self.n)
        self.degree = degree if degree is not None else int(rng.integers(1, 4))
        self.breaks = [breaks(rng, k) for k in self.n]
        self.ncells = int(np.prod(self.n))
        self.active = None
        if rng.random() < active:
            k = int(rng.integers(1, self.ncells + 1))
            self.active = np.sort(rng.choice(self.ncells, size=k, replace=False)).astype(np.int64)
            if rng.random() < 0.3:
                self.active = rng.permutation(self.active)
        self.size = int(rng.choice(ranks))
        self.ghost = m.GhostMode(int(rng.integers(0, 3)))
        world = {}
        self.meshes = []
        self.nodes = lex_points([refine(b, self.degree) for b in self.breaks])
        for r in range(self.size):
            comm = MPI.Intracomm(r, self.size, world)
            self.meshes.append((factory or self._tp)(comm, self))

    def _tp(self, comm, case):
        from qugar.mesh.tp_mesh import TensorProductMesh
        nodes = self.nodes if comm.rank == 0 else np.empty((0, self.dim))
        return TensorProductMesh(comm, nodes.copy(), list(self.n), self.degree,
                                 None if self.active is None else self.active.copy(), self.ghost)

    @property
    def cls(self):
        return f"{self.dim}D/p{min(self.degree, 3)}/{'active' if self.active is not None else 'all'}/np{self.size}"

    def describe(self):
        return dict(n=self.n, degree=self.degree, active=None if self.active is None else self.active.tolist(),
                    size=self.size, ghost=int(self.ghost), breaks=[b.tolist() for b in self.breaks])


def cell_vertices(mesh):
    """(ncells, 2^dim, gdim) coordinates of the vertices, in DOLFINx order."""
    nv = {1: 2, 2: 4, 3: 8}[mesh.topology.dim]
    return mesh.geometry.x[mesh.geometry.dofmap[:, :nv]][:, :, :mesh.geometry.dim]


def lex_cells(mesh, brk):
    """Lexicographic id of each local cell (ghosts included) from its position."""
    v = cell_vertices(mesh)
    mid = v.mean(axis=1)
    ids = np.zeros(len(mid), dtype=np.int64)
    mult = 1
    for d, b in enumerate(brk):
        i = np.searchsorted(b, mid[:, d]) - 1
        ids += mult * i
        mult *= len(b) - 1
    return ids


def facet_midpoints(mesh):
    """(ncells, nfacets, gdim)"""
    import basix
    ct = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}[mesh.topology.dim]
    v = cell_vertices(mesh)
    return np.stack([v[:, loc].mean(axis=1) for loc in basix.topology(ct)[-2]], axis=1)


def lex_facet_midpoint(brk, lex, lf):
    t = []
    for b in brk:
        t.append(lex % (len(b) - 1))
        lex //= len(b) - 1
    p = [(b[i] + b[i + 1]) / 2 for b, i in zip(brk, t)]
    d, s = divmod(int(lf), 2)
    p[d] = brk[d][t[d] + s]
    return np.array(p)


def facet_pairs(mesh):
    """facet id -> list of (cell, local facet), from the cell-to-facet connectivity"""
    top = mesh.topology
    d = top.dim
    top.create_connectivity(d, d - 1)
    c2f = top.connectivity(d, d - 1)
    res = {}
    for c in range(c2f.num_nodes):
        for lf, f in enumerate(c2f.links(c)):
            res.setdefault(int(f), []).append((c, lf))
    return res
