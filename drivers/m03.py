import itertools

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import basix  # noqa
import qugar.cpp  # noqa
from mpi4py import MPI  # noqa
from dolfinx.cpp.mesh import GhostMode  # noqa
from qugar.mesh import mesh as QM  # noqa
from qugar.mesh import tp_mesh as TM  # noqa
from qugar.mesh.tp_index import TensorProdIndex as T  # noqa
from drivers import m02, meshes  # noqa

mon.limit_memory(8)
rng = mon.nprng("m03")
I32 = np.int32


# ---- tensor-product indices --------------------------------------------------
def all_tids(n):
    return [t[::-1] for t in itertools.product(*[range(k) for k in n[::-1]])]


def flat(n, t):
    m, f = 1, 0
    for a, b in zip(n, t):
        f += m * int(b)
        m *= int(a)
    return f


def eq(name, got, want, data, cls, order=True):
    got = np.asarray(got)
    w = sorted(want)
    ok = got.ndim == 1 and got.dtype.kind == "i" and (got.tolist() == w if order else sorted(got.tolist()) == w)
    mon.check(ok, name, lambda: f"{np.array2string(got, threshold=40)} (shape {got.shape}) is not {w[:40]}", data, cls)


def nclass(n):
    return f"{len(n)}D/" + ("2" if min(n) == 2 else "n") + ("=" if len(set(n)) == 1 else "!")


def indices(i):
    dim = 1 + i % 3
    n = [int(v) for v in rng.integers(2, {1: 12, 2: 8, 3: 6}[dim], size=dim)]
    nn = np.array(n, dtype=I32)
    data, c = dict(n=n), nclass(n)
    tids = all_tids(n)
    with mon.case("tp/convert", data):
        for k, t in enumerate(tids):
            f = T.get_flat_index(nn, np.array(t, dtype=I32))
            b = T.get_tensor_index(nn, [k, np.int32(k), np.int64(k)][k % 3])
            if int(f) != k or b.tolist() != list(t):
                mon.bad("tp/convert", f"{t} <-> {k} of {n}: flat {f}, tensor {b}", data)
                break
        mon.see("tp-convert/" + c)
    edge = lambda t: [d for d in range(dim) if t[d] in (0, n[d] - 1)]  # noqa
    with mon.case("tp/sets", data):
        eq("tp/all_corners", T.get_all_corners(nn), [flat(n, t) for t in tids if len(edge(t)) == dim], data, "corners/" + c)
        eq("tp/all_internal", T.get_all_internal(nn), [flat(n, t) for t in tids if not edge(t)], data, "internal/" + c)
        eq("tp/all_faces", T.get_all_faces(nn), [flat(n, t) for t in tids if edge(t)], data, "faces/" + c)
        if dim < 3:
            eq("tp/all_edges", T.get_all_edges(nn), [flat(n, t) for t in tids if edge(t)], data, "edges/" + c)
    with mon.case("tp/entities", data):
        for k in range(2**dim):
            w = flat(n, [(n[d] - 1) * (k >> d & 1) for d in range(dim)])
            mon.check(int(T.get_corner(nn, k)) == w, "tp/corner", lambda: f"corner {k} of {n} is {T.get_corner(nn, k)} not {w}",
                      data, f"corner/{k}/{dim}")
        for lex in (True, False):
            for k, (d, s) in enumerate(m02.faces_lex(dim) if lex else m02.faces_dlf(dim)):
                w = [flat(n, t) for t in tids if t[d] == (n[d] - 1) * s]
                eq("tp/face", T.get_face(nn, k, lexicg=lex), w, dict(data, face=k, lex=lex), f"face/{k}/{lex}/{c}", order=False)
            for k, e in enumerate(m02.edges_lex(dim) if lex else m02.edges_dlf(dim)):
                if dim < 3:
                    w = [flat(n, t) for t in tids if t[e[0]] == (n[e[0]] - 1) * e[1]]
                else:
                    w = [flat(n, t) for t in tids if all(e[0][d] != e[1][d] or t[d] == (n[d] - 1) * e[0][d] for d in range(3))]
                eq("tp/edge", T.get_edge(nn, k, lexicg=lex), w, dict(data, edge=k, lex=lex), f"edge/{k}/{lex}/{c}", order=False)
    if nn.tolist() != n:
        mon.bad("tp/operands", "the index counts were changed", data)


def big_indices(i):
    """more indices than 32 bits can count"""
    dim = 2 + i % 2
    n = [int(v) for v in rng.integers(2, 5, size=dim)]
    d = int(rng.integers(0, dim))
    n[d] = int(rng.integers(2**30, 2**31 - 2))
    nn = np.array(n, dtype=I32)
    data = dict(n=n)
    with mon.case("tp/big", data):
        for _ in range(10):
            t = [int(rng.integers(0, k)) for k in n]
            f = T.get_flat_index(nn, np.array(t, dtype=I32))
            mon.check(int(f) == flat(n, t) and T.get_tensor_index(nn, flat(n, t)).tolist() == t, "tp/big/convert",
                      lambda: f"{t} of {n}: {f}, back {T.get_tensor_index(nn, flat(n, t))}", data, f"big-convert/{dim}")
        for k in range(2**dim):
            w = flat(n, [(n[e] - 1) * (k >> e & 1) for e in range(dim)])
            mon.check(int(T.get_corner(nn, k)) == w, "tp/big/corner", lambda: f"corner {k} of {n} is {T.get_corner(nn, k)} not {w}",
                      data, f"big-corner/{k}/{dim}")
        for k in (2 * d, 2 * d + 1):
            rest = [e for e in range(dim) if e != d]
            w = []
            for t in itertools.product(*[range(n[e]) for e in rest]):
                full = [0] * dim
                full[d] = (n[d] - 1) * (k & 1)
                for e, v in zip(rest, t):
                    full[e] = v
                w.append(flat(n, full))
            eq("tp/big/face", T.get_face(nn, k, lexicg=True), w, dict(data, face=k), f"big-face/{dim}", order=False)


# ---- helpers -------------------------------------------------------------------
def find_in_array(i):
    na, nv = int(rng.choice([0, 1, 5, 30])), int(rng.choice([0, 1, 7]))
    dt = [np.int32, np.int64][i % 2]
    hi = int(rng.choice([3, 40, 1000]))
    a = rng.integers(-hi, hi, size=na).astype(dt)
    if i % 3:
        a = rng.permutation(np.unique(a)).astype(dt)
    v = (a[rng.integers(0, len(a), size=nv)] if len(a) and i % 4 else rng.integers(-hi - 2, hi + 2, size=nv)).astype(dt)
    data = dict(all=a.tolist(), values=v.tolist())
    with mon.case("find", data):
        r = QM._find_in_array(v.copy(), a.copy())
        ok = len(r) == len(v) and all((int(k) == -1 and x not in a) or (k >= 0 and a[k] == x) for k, x in zip(r, v))
        mon.check(ok, "find/position", lambda: f"{v} in {a}: {r}", data, f"find/{na > 0}/{nv > 0}/{bool(i % 3)}")


def merge_points(i):
    """clusters well inside the tolerance, apart by much more than it"""
    dim = 1 + i % 3
    dt = [np.float64, np.float32][i % 5 == 4]
    tol = None
    nclu = int(rng.integers(1, 12))
    scale = float(rng.choice([1e-2, 1.0, 50.0]))
    off = rng.integers(-3, 4, size=dim) * (1.0 if dt == np.float32 else float(rng.choice([0.0, 1.0, 300.0]))) * scale
    grid = rng.permutation(4**dim)[:nclu]
    cen = np.array([[g // 4**d % 4 for d in range(dim)] for g in grid]) * scale
    if rng.random() < 0.5 and dt == np.float64:
        cen = np.concatenate([cen, cen[:2] + 1e-3 * scale * (1 + np.arange(dim) * 0)])   # close, but not coincident
    if len(cen) < 2 or np.ptp(cen) == 0:
        return
    ext = np.ptp(cen, axis=0).max()
    real_tol = 1e-5 * ext
    if rng.random() < 0.4:
        tol = real_tol = 1e-4 * scale
    lab = np.concatenate([np.arange(len(cen)), rng.integers(0, len(cen), size=int(rng.integers(0, 25)))])
    lab = lab[rng.permutation(len(lab))]
    x = (cen[lab] + off + (rng.random((len(lab), dim)) - 0.5) * real_tol * (0.0 if dt == np.float32 else 0.2)).astype(dt)
    conn = rng.integers(0, len(lab), size=(int(rng.integers(1, 9)), 2**dim)).astype(np.int64)
    data = dict(x=x.tolist(), tol=tol, conn=conn.tolist())
    with mon.case("merge", data):
        x0, c0 = x.copy(), conn.copy()
        nx, nc, o2n = QM._merge_coincident_points_in_mesh(x, conn, tol)
        cls = f"merge/{dim}D/{np.dtype(dt).name}/{'tol' if tol else 'auto'}/{'off' if np.any(off) else 'origin'}"
        ok = len(o2n) == len(x) and len(nx) == len(set(lab.tolist())) and o2n.min() >= 0 and o2n.max() < len(nx)
        mon.check(ok, "merge/count", lambda: f"{len(nx)} points left, {len(set(lab.tolist()))} distinct ones", data, cls)
        if ok:
            groups = {}
            for a, b in zip(lab, o2n):
                groups.setdefault(int(a), set()).add(int(b))
            mon.check(all(len(g) == 1 for g in groups.values()) and np.abs(nx[o2n] - x0).max() <= real_tol, "merge/map",
                      "coincident points are not identified, or distinct ones are", data, "map-" + cls)
            mon.check(np.array_equal(nc, o2n[c0]) and nc.shape == c0.shape, "merge/conn", "a cell refers to other points than before",
                      data, "conn-" + cls)
            mon.check(nx.dtype == dt and np.array_equal(x, x0) and np.array_equal(conn, c0), "merge/operands",
                      "the input was modified or the type changed", data, "operands-" + cls)


def nodes_fn(i):
    dim, p = 1 + i % 3, int(rng.integers(1, 5))
    brk = [meshes.breaks(rng, int(rng.integers(1, 5))) for _ in range(dim)]
    if i % 4 == 3:
        brk = [b.astype(np.float32) for b in brk]
    data = dict(breaks=[b.tolist() for b in brk], degree=p)
    with mon.case("nodes", data):
        got = TM._create_Cartesian_mesh_nodes_from_cells([b.copy() for b in brk], p)
        want = meshes.lex_points([meshes.refine(b, p) for b in brk])
        mon.check(got.shape == want.shape and np.abs(got - want).max() < 1e-5 * (1 + np.abs(want).max()) and got.dtype == brk[0].dtype,
                  "nodes/content", lambda: f"nodes of {brk} degree {p}: {got[:9]}...", data, f"nodes/{dim}D/p{p}/{got.dtype}")


# ---- meshes ---------------------------------------------------------------------
def cartesian(dtype):
    def make(comm, case):
        grid = qugar.cpp.create_cart_grid(case.breaks)
        return TM.CartesianMesh(comm, grid, case.degree, case.active, case.ghost, dtype)
    return make


def uniform(xmin, xmax, dtype):
    def make(comm, case):
        return TM.create_Cartesian_mesh(comm, case.n if case.dim == 2 else np.array(case.n, dtype=I32),
                                        xmin, xmax, case.degree, case.ghost)
    return make


def mesh_case(i):
    kind = ["tp", "tp", "cart", "uniform"][i % 4]
    dtype = np.float64
    if kind == "tp":
        case = meshes.Case(rng, ranks=(1, 1, 2, 3))
    elif kind == "cart":
        dtype = [np.float64, np.float32][i // 4 % 2]
        case = meshes.Case(rng, dims=(2, 3), ranks=(1, 1, 2), factory=cartesian(dtype))
    else:
        dtype = [np.float64, np.float32][i // 4 % 2]
        dim = int(rng.integers(2, 4))
        xmin = None if rng.random() < 0.3 and dtype == np.float64 else rng.integers(-4, 1, size=dim).astype(dtype)
        xmax = None if rng.random() < 0.3 and dtype == np.float64 else rng.integers(2, 5, size=dim).astype(dtype)
        n = [int(rng.integers(1, 6 if dim == 2 else 4)) for _ in range(dim)]
        lo = np.zeros(dim) if xmin is None else xmin
        hi = np.ones(dim) if xmax is None else xmax
        case = meshes.Case(rng, active=0, ranks=(1, 1, 2), n=n, factory=uniform(xmin, xmax, dtype))
        case.breaks = [np.linspace(lo[d], hi[d], n[d] + 1) for d in range(dim)]
    case.kind, case.dtype = kind, dtype
    return case


def near(a, b):
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() < 2e-5 * (1 + np.abs(b).max()))


def mesh_checks(case):
    data = dict(case.describe(), kind=case.kind, dtype=np.dtype(case.dtype).name)
    cls = f"{case.kind}/{case.cls}/{np.dtype(case.dtype).name}"
    d, p, n = case.dim, case.degree, case.n
    act = np.arange(case.ncells) if case.active is None else np.sort(case.active)
    elem = np.array(m02.dlf_nodes(d, p))
    axes = [meshes.refine(b, p) for b in case.breaks]
    owned_all, glob_all = [], []
    for rank, m in enumerate(case.meshes):
        nloc = int(m.num_local_cells)
        imap = m.topology.index_map(d)
        tot = imap.size_local + imap.num_ghosts
        lex = meshes.lex_cells(m, case.breaks)
        st = (m.tdim, m.gdim, m.degree, list(m.num_cells_dir), int(m.num_cells_tp), list(m.num_pts_dir), int(m.num_global_cells), nloc,
              bool(m.has_inactive_cells), np.dtype(m.dtype))
        want = (d, d, p, n, case.ncells, [k * p + 1 for k in n], len(act), imap.size_local, len(act) < case.ncells, np.dtype(case.dtype))
        mon.check(st == want, "mesh/attributes", lambda: f"{st} != {want}", data, "attributes/" + cls)
        if len(act) < case.ncells:
            mon.check(sorted(m.original_active_cells.tolist()) == act.tolist(), "mesh/active", "active cells differ", data, "active/" + cls)
        # every cell has the nodes of its position, in DOLFINx order
        ids = m.get_original_cell_ids(np.arange(tot, dtype=I32))
        mon.check(np.array_equal(ids, lex) and set(ids.tolist()) <= set(act.tolist()), "mesh/cell-ids",
                  lambda: f"original ids {ids} of cells located at {lex}", data, "cell-ids/" + cls)
        for c in range(tot):
            t = T_of(n, lex[c])
            pos = np.array([[axes[k][t[k] * p + e[k]] for k in range(d)] for e in elem])
            if not near(m.geometry.x[m.geometry.dofmap[c]][:, :d], pos):
                mon.bad("mesh/nodes", f"the nodes of cell {c} (lexicographic {lex[c]}) are not those of its position", data)
                break
        mon.see("nodes/" + cls, tot)
        # the cells are boxes: their map is affine whatever the degree
        xi = rng.random((5, d))
        lo = np.array([[case.breaks[k][T_of(n, lex[c])[k]] for k in range(d)] for c in range(tot)])
        hi = np.array([[case.breaks[k][T_of(n, lex[c])[k] + 1] for k in range(d)] for c in range(tot)])
        tab = m.geometry.cmap.element.tabulate(0, xi.astype(case.dtype))[0, :, :, 0]
        for c in range(tot):
            got = tab @ m.geometry.x[m.geometry.dofmap[c]][:, :d]
            if not near(got, lo[c] + xi * (hi[c] - lo[c])):
                mon.bad("mesh/cell-map", f"cell {c} maps the reference points {xi} to {got}, not to {lo[c] + xi * (hi[c] - lo[c])}", data)
                break
        mon.see("cell-map/" + cls, tot)
        owned_all += lex[:nloc].tolist()
        mon.check(np.array_equal(m.get_all_original_cell_ids(), lex[:nloc]), "mesh/all-original", "get_all_original_cell_ids differs",
                  data, "all-original/" + cls)
        # from original to local, absent ones included
        req = rng.permutation(case.ncells)[: int(rng.integers(0, case.ncells + 1))].astype(np.int64)
        where = {int(l): c for c, l in enumerate(lex)}
        loc = m.get_DOLFINx_local_cell_ids(req.copy())
        mon.check(loc.tolist() == [where.get(int(r), -1) for r in req] and loc.dtype == I32, "mesh/local-ids",
                  lambda: f"{req} -> {loc}, cells are at {lex}", data, "local-ids/" + cls)
        own = rng.permutation(nloc).astype(I32)
        g = m.get_DOLFINx_local_to_global_cell_ids(own)
        g2 = m.get_DOLFINx_global_cell_ids(lex[own])
        mon.check(np.array_equal(g, own + imap.local_range[0]) and np.array_equal(g, g2), "mesh/global-ids",
                  lambda: f"{own} -> {g} / {g2}", data, "global-ids/" + cls)
        glob_all += g.tolist()
        # nodes
        igi = m.geometry.input_global_indices
        nn = len(m.geometry.x)
        orig = m.get_original_node_ids(np.arange(nn, dtype=I32))
        nodes = meshes.lex_points(axes)
        mon.check(near(m.geometry.x[:, :d], nodes[orig]), "mesh/node-ids", "original node ids name nodes elsewhere", data, "node-ids/" + cls)
        req = rng.permutation(len(nodes))[:20].astype(np.int64)
        back = {int(o): k for k, o in enumerate(igi)}
        ln = m.get_DOLFINx_local_node_ids(req.copy())
        mon.check(ln.tolist() == [back.get(int(r), -1) for r in req], "mesh/local-nodes", lambda: f"{req} -> {ln}", data, "local-nodes/" + cls)
        # facets of a cell, faces of the grid
        fp = None
        order = rng.permutation(3)
        for step in order:
            if step == 0:
                for c in range(min(tot, 6)):
                    f = m.get_cell_facets(np.int32(c))
                    fp = fp or meshes.facet_pairs(m)
                    if sorted(f.tolist()) != sorted(k for k, ps in fp.items() if any(q[0] == c for q in ps)):
                        mon.bad("mesh/cell-facets", f"facets {f} of cell {c}", data)
                mon.see("cell-facets/" + cls)
            elif step == 1:
                for k, (dd, s) in enumerate(m02.faces_lex(d)):
                    cells = m.get_face_DOLFINx_cells(k)
                    w = [c for c in range(tot) if T_of(n, lex[c])[dd] == (n[dd] - 1) * s]
                    ok = cells.tolist() == sorted(w) or (tot > nloc and cells.tolist() == [c for c in w if c < nloc])
                    mon.check(ok, "mesh/face-cells", lambda: f"cells {cells} touch face {k}, not {sorted(w)}", dict(data, face=k),
                              f"face-cells/{k}/{cls}")
                    fac = m.get_face_facets(k)
                    mid = meshes.facet_midpoints(m)
                    m.topology.create_connectivity(d, d - 1)
                    c2f = m.topology.connectivity(d, d - 1)
                    w = sorted({int(c2f.links(c)[lf]) for c in cells for lf in range(2 * d)
                                if abs(mid[c, lf, dd] - case.breaks[dd][-1 if s else 0]) < 1e-5})
                    mon.check(fac.tolist() == w, "mesh/face-facets", lambda: f"facets {fac} on face {k}, not {w}", dict(data, face=k),
                              f"face-facets/{k}/{cls}")
            else:
                tags = m.create_facet_bdry_tags()
                fp2 = meshes.facet_pairs(m)
                mid = meshes.facet_midpoints(m)
                want = {}
                for f, ps in fp2.items():
                    for c, lf in ps:
                        for k, (dd, s) in enumerate(m02.faces_lex(d)):
                            if abs(mid[c, lf, dd] - case.breaks[dd][-1 if s else 0]) < 1e-5 and T_of(n, lex[c])[dd] == (n[dd] - 1) * s:
                                want[f] = k
                got = dict(zip(tags.indices.tolist(), tags.values.tolist()))
                mon.check(got == want and tags.dim == d - 1, "mesh/bdry-tags", lambda: f"tags {got} != {want}", data, "bdry-tags/" + cls)
        for c in rng.permutation(tot)[:5]:
            t = m.get_cell_tensor_index([np.int32(c), int(c)][int(rng.integers(2))])
            mon.check(list(t) == T_of(n, lex[c]), "mesh/cell-tensor", lambda: f"cell {c}: {t} != {T_of(n, lex[c])}", data, "cell-tensor/" + cls)
            if case.kind != "tp":
                b = m.get_cell_bbox(np.int32(c))
                v = meshes.cell_vertices(m)[c]
                mon.check(near(b, np.array([v.min(axis=0), v.max(axis=0)])), "mesh/cell-bbox", lambda: f"{b} around {v}", data, "bbox/" + cls)
        if case.kind != "tp":
            mon.check(len(m.cell_breaks) == d and all(near(np.asarray(a), b) for a, b in zip(m.cell_breaks, case.breaks))
                      and all(np.asarray(a).dtype == case.dtype for a in m.cell_breaks)
                      and m.cart_grid_tp_cpp_object.num_cells_dir.tolist() == n,
                      "mesh/breaks", "cell breaks differ", data, "breaks/" + cls)
    mon.check(sorted(owned_all) == act.tolist() and sorted(glob_all) == list(range(len(act))), "mesh/partition",
              lambda: f"owned cells {sorted(owned_all)} are not {act.tolist()}; global ids {sorted(glob_all)}", data, "partition/" + cls)
    if case.size > 1 and case.kind != "tp":
        # without a ghost layer only the owned cells are local
        for m in case.meshes:
            if case.ghost == GhostMode.none and m.topology.index_map(d).num_ghosts:
                mon.bad("mesh/ghosts", "ghost cells although none were asked for", data)
            mode = m.comm.world["mesh"][3]
            mon.check(mode == ("partitioner", case.ghost), "mesh/ghost-mode", f"partitioner {mode} for {case.ghost!r}", data,
                      f"ghost-mode/{int(case.ghost)}/{case.kind}")


def T_of(n, f):
    t = []
    for k in n:
        t.append(int(f % k))
        f //= k
    return t


def broken_mesh(i):
    """cells with their own copy of every node, merged on creation; possibly a surface
    in a space of higher dimension; optionally inactive cells"""
    from basix import CellType
    d = 1 + i % 3
    p = int(rng.integers(1, 4))
    n = [int(rng.integers(1, {1: 7, 2: 4, 3: 3}[d])) for _ in range(d)]
    brk = [meshes.breaks(rng, k) for k in n]
    gd = int(rng.integers(d, 4))
    A = np.eye(d, gd)
    A[:, d:] = rng.integers(-2, 3, size=(d, gd - d)) / 4.0
    elem = np.array(m02.dlf_nodes(d, p))
    axes = [meshes.refine(b, p) for b in brk]
    x, conn, lexn = [], [], []
    st = np.cumprod([1] + [k * p + 1 for k in n])[:-1]
    for c in range(int(np.prod(n))):
        t = T_of(n, c)
        conn.append(list(range(len(x), len(x) + len(elem))))
        for e in elem:
            x.append([axes[k][t[k] * p + e[k]] for k in range(d)])
            lexn.append(int(sum(st[k] * (t[k] * p + e[k]) for k in range(d))))
    x, conn, lexn = np.array(x) @ A, np.array(conn, dtype=np.int64), np.array(lexn)
    perm = rng.permutation(len(x))
    inv = np.argsort(perm)
    x, lexn, conn = x[perm], lexn[perm], inv[conn]
    if np.ptp(x) == 0:
        return
    merge = rng.random() < 0.75
    active = None
    if rng.random() < 0.4:
        active = rng.permutation(len(conn))[: int(rng.integers(1, len(conn) + 1))].astype(np.int64)
        if len(active) == len(conn):
            active = None
    tol = None if rng.random() < 0.5 else 1e-4
    data = dict(n=n, p=p, gd=gd, merge=bool(merge), active=None if active is None else active.tolist())
    cls = f"{d}in{gd}/p{p}/{'merged' if merge else 'apart'}/{'active' if active is not None else 'all'}"
    with mon.case("broken", data):
        import dolfinx.cpp.mesh as cm
        cm.seed(int(rng.integers(1 << 31)))
        ct = [CellType.interval, CellType.quadrilateral, CellType.hexahedron][d - 1]
        xin = x[:, 0].copy() if gd == 1 and rng.random() < 0.5 else x.copy()
        if xin.ndim == 1 and merge:
            xin = x.copy()
        m = QM.Mesh(MPI.COMM_WORLD, xin, conn.copy(), ct, p, active, GhostMode.none, merge, tol)
        act = np.arange(len(conn)) if active is None else active
        used = np.unique(conn[act])
        nuse = len(set(lexn[used].tolist())) if merge else len(used)
        mon.check(len(m.geometry.x) == nuse and bool(m.has_merged_nodes) == bool(merge) and m.gdim == gd, "broken/nodes",
                  lambda: f"{len(m.geometry.x)} nodes, expected {nuse}", data, "broken-nodes/" + cls)
        ids = m.get_original_cell_ids(np.arange(len(act), dtype=I32))
        ok = sorted(ids.tolist()) == sorted(act.tolist()) and all(
            near(m.geometry.x[m.geometry.dofmap[c]][:, :gd], x[conn[ids[c]]]) for c in range(len(act)))
        mon.check(ok, "broken/cells", "a cell lost its nodes or its original number", data, "broken-cells/" + cls)
        loc = m.get_DOLFINx_local_node_ids(np.arange(len(x), dtype=np.int64))
        usedlex = set(lexn[used].tolist()) if merge else None
        for o, l in enumerate(loc):
            present = (lexn[o] in usedlex) if merge else (o in used)
            if (l < 0) == present or (l >= 0 and not near(m.geometry.x[l][:gd], x[o])):
                mon.bad("broken/node-ids", f"original node {o} (used: {present}) -> local node {l}", data)
                break
        mon.see("broken-node-ids/" + cls)
        orig = m.get_original_node_ids(np.arange(len(m.geometry.x), dtype=I32))
        mon.check(orig.min() >= 0 and near(x[orig], m.geometry.x[:, :gd]), "broken/original-nodes",
                  "an original node id names a node elsewhere", data, "broken-orig-nodes/" + cls)
        if merge:
            mm = m.merged_nodes_map
            mon.check(len(mm) == len(x) and len(set(zip(mm.tolist(), lexn.tolist()))) == len(set(mm.tolist())) == len(set(lexn.tolist())),
                      "broken/map", "merged_nodes_map does not identify exactly the coincident nodes", data, "broken-map/" + cls)
        back = m.get_DOLFINx_local_cell_ids(np.arange(len(conn), dtype=np.int64))
        w = np.full(len(conn), -1)
        w[ids] = np.arange(len(act))
        mon.check(np.array_equal(back, w), "broken/local-ids", lambda: f"{back} != {w}", data, "broken-local-ids/" + cls)


def main():
    for i in range(mon.scale(60, 600)):
        indices(i)
    for i in range(mon.scale(12, 100)):
        big_indices(i)
    for i in range(mon.scale(150, 3000)):
        find_in_array(i)
        merge_points(i)
    for i in range(mon.scale(40, 400)):
        nodes_fn(i)
    for i in range(mon.scale(200, 1000)):
        with mon.case("mesh"):
            mesh_checks(mesh_case(i))
        broken_mesh(i)
    mon.done()


if __name__ == "__main__":
    main()
