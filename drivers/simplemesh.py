"""Random meshes of any cell type, distorted and with shuffled vertices. Import after use_stubs()."""
import itertools

import numpy as np

from drivers import meshes

HEX_SYM = {}


def symmetries(dim):
    """vertex orders of a quadrilateral / hexahedron that keep it one (rotations and mirrors)"""
    if dim not in HEX_SYM:
        out = []
        for axes in itertools.permutations(range(dim)):
            for flip in itertools.product((0, 1), repeat=dim):
                o = []
                for v in range(1 << dim):
                    bits = [(v >> axes[d] & 1) ^ flip[d] for d in range(dim)]
                    o.append(sum(bb << d for d, bb in enumerate(bits)))
                out.append(o)
        HEX_SYM[dim] = out
    return HEX_SYM[dim]


def some_mesh(rng, kind, most=None):
    import basix.ufl
    import dolfinx.cpp.mesh as m
    import dolfinx.mesh
    from mpi4py import MPI
    dim = 2 if kind in ("triangle", "quadrilateral") else 3
    n = [int(rng.integers(1, most or (4 if dim == 2 else 3))) for _ in range(dim)]
    if np.prod(n) == 1:
        n[int(rng.integers(dim))] = 2
    pts = meshes.lex_points([np.arange(k + 1.0) for k in n])
    pts = pts + rng.uniform(-0.2, 0.2, pts.shape)
    st = np.cumprod([1] + [k + 1 for k in n])[:-1]
    cells = []
    for t in itertools.product(*[range(k) for k in n]):
        o = int(np.dot(t, st))
        if kind in ("quadrilateral", "hexahedron"):
            v = [o + sum(int(st[d]) for d in range(dim) if b >> d & 1) for b in range(1 << dim)]
            s = symmetries(dim)
            cells.append([v[k] for k in s[int(rng.integers(len(s)))]])
        else:
            for perm in itertools.permutations(range(dim)):
                v, c = o, [o]
                for d in perm:
                    v += int(st[d])
                    c.append(v)
                cells.append([c[k] for k in rng.permutation(dim + 1)])
    e = basix.ufl.element("Lagrange", kind, 1, shape=(dim,))
    m.seed(int(rng.integers(1 << 31)))
    return dolfinx.mesh.create_mesh(MPI.COMM_WORLD, np.array(cells, dtype=np.int64), e, pts)
