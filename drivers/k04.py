"""K04: facet points in the reference cells of both neighbours.

Oracles: basix geometry/topology for the facet-to-cell map, the FFCx rules for permuted
facet points, and the coincidence of the physical points of both neighbours."""
import basix
import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import ufl  # noqa
from dolfinx.cpp.mesh import CellType  # noqa
from qugar.dolfinx import custom_quad_utils as U  # noqa
from drivers import meshes  # noqa
from drivers.simplemesh import some_mesh  # noqa

rng = mon.nprng("k04")
CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]


def facet_shape(cell, lf):
    verts = basix.topology(getattr(basix.CellType, cell))[-2][lf]
    dim = basix.geometry(getattr(basix.CellType, cell)).shape[1] - 1
    return {0: "point", 1: "interval", 2: "triangle" if len(verts) == 3 else "quadrilateral"}[dim]


def facet_points(shape, n):
    d = {"point": 0, "interval": 1}.get(shape, 2)
    p = rng.random((n, d))
    if n and rng.random() < 0.3:
        p[rng.random(n) < 0.5] = np.round(p[:1]) if d else 0.0
    if shape == "triangle":
        out = p.sum(axis=1) > 1
        p[out] = 1 - p[out]
    return p


def vertex_weights(shape, p):
    if shape == "point":
        return np.ones((len(p), 1))
    if shape == "interval":
        return np.stack([1 - p[:, 0], p[:, 0]], axis=1)
    x, y = p.T
    if shape == "triangle":
        return np.stack([1 - x - y, x, y], axis=1)
    return np.stack([(1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y], axis=1)


def oracle_map(p, lf, cell):
    ct = getattr(basix.CellType, cell)
    v = basix.geometry(ct)[basix.topology(ct)[-2][lf]]
    return vertex_weights(facet_shape(cell, lf), p) @ v


def maps(i):
    cell = CELLS[i % len(CELLS)]
    nf = len(basix.topology(getattr(basix.CellType, cell))[-2])
    n = int(rng.choice([0, 1, 2, 5, 40, 300]))
    one = rng.random() < 0.3
    facets = (np.full(n, rng.integers(nf)) if one else rng.integers(0, nf, n)).astype(np.int32)
    pts = np.zeros((n, basix.geometry(getattr(basix.CellType, cell)).shape[1] - 1))
    for k in range(n):
        pts[k] = facet_points(facet_shape(cell, facets[k]), 1)[0]
    D = dict(cell=cell, facets=facets, points=pts)
    with mon.case("map", D):
        a, b = pts.copy(), facets.copy()
        got = U.map_facets_points(a, b, CellType[cell])
        exp = np.array([oracle_map(pts[k:k + 1], facets[k], cell)[0] for k in range(n)]).reshape(n, pts.shape[1] + 1)
        ok = got.shape == exp.shape and np.abs(got - exp).max(initial=0.0) < 1e-13
        mon.check(ok, "map/points", lambda: f"{cell}: off by {np.abs(got - exp).max(initial=0.0) if got.shape == exp.shape else (got.shape, exp.shape)}",
                  D, f"map/{cell}/{min(n, 6)}/{one}/{facets[0] if n else ''}")
        mon.check(np.array_equal(a, pts) and np.array_equal(b, facets), "map/operands", "inputs changed", D, f"map-operands/{cell}")


def ffcx_permute(shape, p, perm):
    rot, ref = divmod(int(perm), 2)
    p = p.copy()
    if shape == "interval":
        return 1 - p if perm else p
    for _ in range(rot):
        x, y = p.T.copy()
        p = np.stack([y, 1 - x - y if shape == "triangle" else 1 - x], axis=1)
    if ref:
        p = p[:, ::-1].copy()
    return p


N_PERMS = {"interval": 2, "triangle": 6, "quadrilateral": 8}


def perms(i):
    shape = ["interval", "triangle", "quadrilateral"][i % 3]
    n = int(rng.choice([0, 1, 2, 7, 60]))
    p = facet_points(shape, n)
    pm = rng.integers(0, N_PERMS[shape], n).astype(np.uint8)
    if rng.random() < 0.3:
        pm[:] = rng.integers(N_PERMS[shape])
    D = dict(shape=shape, perms=pm, points=p)
    with mon.case("perm", D):
        a, b = p.copy(), pm.copy()
        if not hasattr(U, "_permute_points"):
            return  # private helper gone: covered through permute_facet_points below
        got = U._permute_points(a, b, ufl.Cell(shape))
        exp = np.array([ffcx_permute(shape, p[k:k + 1], pm[k])[0] for k in range(n)]).reshape(p.shape)
        for k in range(n):
            mon.check(np.abs(got[k] - exp[k]).max() < 1e-13, f"perm/{shape}/{pm[k]}", lambda: f"{p[k]} -> {got[k]}, expected {exp[k]}", D,
                      f"perm/{shape}/{pm[k]}")
        mon.check(got.shape == p.shape and np.array_equal(a, p) and np.array_equal(b, pm), "perm/operands", "inputs changed", D,
                  f"perm-operands/{shape}/{n}")


def push(mesh, kind, cells, X):
    """physical points: linear / multilinear geometry"""
    e = basix.create_element(basix.ElementFamily.P, getattr(basix.CellType, kind), 1, basix.LagrangeVariant.gll_warped)
    N = e.tabulate(0, X)[0, :, :, 0]
    x = mesh.geometry.x[mesh.geometry.dofmap[cells]][:, :, :mesh.geometry.dim]
    return np.einsum("pi,pid->pd", N, x)


def neighbours(i):
    kind = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"][i % 4]
    mesh = some_mesh(rng, kind)
    fshape = facet_shape(kind, 0)
    inner = [p for p in meshes.facet_pairs(mesh).values() if len(p) == 2]
    outer = [p[0] for p in meshes.facet_pairs(mesh).values() if len(p) == 1]
    D = dict(kind=kind, x=mesh.geometry.x, cells=mesh.geometry.dofmap)
    with mon.case("neighbours", D):
        order = rng.permutation(len(inner))
        inner = [inner[k] if rng.random() < 0.5 else inner[k][::-1] for k in order]
        npts = rng.integers(0, 4, len(inner))
        c = [np.repeat(np.array([p[s][0] for p in inner], dtype=np.int32), npts) for s in (0, 1)]
        f = [np.repeat(np.array([p[s][1] for p in inner], dtype=np.int32), npts) for s in (0, 1)]
        p = facet_points(fshape, int(npts.sum()))
        p0 = p.copy()
        X = [U.map_facets_points(U.permute_facet_points(p, mesh, c[s], f[s]), f[s], mesh.topology.cell_type) for s in (0, 1)]
        mon.check(np.array_equal(p, p0), "neighbours/operands", "points changed", D, "neigh-operands/" + kind)
        x = [push(mesh, kind, c[s], X[s]) for s in (0, 1)]
        top = mesh.topology
        pm = top.get_facet_permutations().reshape(-1, len(basix.topology(getattr(basix.CellType, kind))[-2]))
        for k in range(len(p)):
            a, b = pm[c[0][k], f[0][k]], pm[c[1][k], f[1][k]]
            mon.check(np.abs(x[0][k] - x[1][k]).max() < 1e-12, f"neighbours/{kind}/{a}/{b}", lambda: f"{x[0][k]} and {x[1][k]}", D,
                      f"neigh/{kind}/{a}/{b}")
        # a single side: same answer point by point, on the right facet
        if outer:
            co, fo = np.array(outer, dtype=np.int32).T
            q = facet_points(fshape, len(co))
            Y = U.map_facets_points(U.permute_facet_points(q, mesh, co, fo), fo, mesh.topology.cell_type)
            for k in range(len(co)):
                e = oracle_map(ffcx_permute(fshape, q[k:k + 1], pm[co[k], fo[k]]), fo[k], kind)[0]
                mon.check(np.abs(Y[k] - e).max() < 1e-12, f"outer/{kind}", lambda: f"{Y[k]} expected {e}", D, f"outer/{kind}/{pm[co[k], fo[k]]}")


for i in range(mon.scale(160, 1500)):
    maps(i)
    perms(i)
for i in range(mon.scale(48, 500)):
    neighbours(i)
mon.done()
