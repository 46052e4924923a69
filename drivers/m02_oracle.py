"""Node, face and edge orders of the formats, from their definitions."""
import itertools

import basix
import numpy as np

CELLS = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}


def lex_nodes(dim, p):
    return [tuple(t[::-1]) for t in itertools.product(range(p + 1), repeat=dim)]


def dlf_nodes(dim, p):
    e = basix.create_element(basix.ElementFamily.P, CELLS[dim], p, basix.LagrangeVariant.equispaced)
    return [tuple(int(round(v * p)) for v in x) for x in e.points]


VTK_V = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
         3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
VTK_E = {1: [], 2: [(0, 1), (1, 2), (3, 2), (0, 3)],
         3: [(0, 1), (1, 2), (3, 2), (0, 3), (4, 5), (5, 6), (7, 6), (4, 7), (0, 4), (1, 5), (2, 6), (3, 7)]}


def vtk_nodes(dim, p):
    """vtkLagrangeCurve / Quadrilateral / Hexahedron: vertices, edges in the direction
    of growing coordinates, faces x0 x1 y0 y1 z0 z1, interior"""
    out = [tuple(c * p for c in v) for v in VTK_V[dim]]
    for a, b in VTK_E[dim]:
        A, B = np.array(VTK_V[dim][a]), np.array(VTK_V[dim][b])
        out += [tuple(int(v) for v in A * p + (B - A) * i) for i in range(1, p)]
    if dim == 3:
        for d in range(3):
            for s in (0, p):
                lo, hi = [k for k in range(3) if k != d]
                for b in range(1, p):
                    for a in range(1, p):
                        t = [0, 0, 0]
                        t[d], t[lo], t[hi] = s, a, b
                        out.append(tuple(t))
    out += [t for t in lex_nodes(dim, p) if all(0 < v < p for v in t)]
    if dim == 1:
        out = [(0,), (p,)] + [(i,) for i in range(1, p)]
    return out


def faces_lex(dim):
    return [(d, s) for d in range(dim) for s in (0, 1)]


def faces_dlf(dim):
    g, res = basix.geometry(CELLS[dim]), []
    for f in basix.topology(CELLS[dim])[dim - 1]:
        v = g[f]
        res += [(d, int(v[0, d])) for d in range(dim) if np.ptp(v[:, d]) == 0]
    return res


def faces_vtk(dim):
    """the order in which VTK emits the sides of an interval, quad and hexahedron"""
    return [faces_lex(dim)[i] for i in {1: [0, 1], 2: [2, 1, 3, 0], 3: [2, 4, 0, 1, 3, 5]}[dim]]


def edge_key(v):
    return tuple(sorted(tuple(int(c) for c in x) for x in v))


def edges_dlf(dim):
    if dim < 3:
        return faces_dlf(dim)
    g = basix.geometry(CELLS[3])
    return [edge_key(g[e]) for e in basix.topology(CELLS[3])[1]]


def edges_lex(dim):
    """3D: edges along z at corners 0..3, along y at 0 1 4 5, along x at 0 2 4 6"""
    if dim < 3:
        return faces_lex(dim)
    out = []
    for d, corners in ((2, [0, 1, 2, 3]), (1, [0, 1, 4, 5]), (0, [0, 2, 4, 6])):
        for c in corners:
            a = [c & 1, c >> 1 & 1, c >> 2 & 1]
            b = list(a)
            b[d] = 1
            out.append(edge_key([a, b]))
    return out
