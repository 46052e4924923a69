"""Exports to PyVista and reparameterized meshes: geometry drawn vs the ids, statuses,
weights it carries."""
import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import basix  # noqa
import qugar.cpp as stub  # noqa
import dolfinx.mesh as dmesh  # noqa
from dolfinx.cpp.mesh import CellType  # noqa
from mpi4py import MPI  # noqa
import qugar.plot.pyvista_tools as PV  # noqa
import qugar.plot as plot  # noqa
import qugar.reparam as RP  # noqa
from qugar.reparam.reparam import identity_partitioner  # noqa
from drivers import meshes, world  # noqa
from drivers.m02_oracle import vtk_nodes, lex_nodes, faces_dlf  # noqa

rng = mon.nprng("r01")
LEX, DLF, GLB = "Lexicographical cell ids", "DOLFINx local cell ids", "DOLFINx global cell ids"
LF, DF = "Lexicographical local facets ids", "DOLFINx local facets ids"
CS, FS = "Cell status (0: full, 1: cut, 2: empty)", "Facet status (0: full, 1: cut, 2: empty)"
NAME = ["full", "cut", "empty"]


def box(brk, c):
    lo, hi = [], []
    for b in brk:
        i = c % (len(b) - 1)
        c //= len(b) - 1
        lo.append(b[i])
        hi.append(b[i + 1])
    return np.array(lo), np.array(hi)


def near(a, b):
    return np.abs(np.asarray(a, dtype=float) - b).max(initial=0) < 1e-9


def is_box(pts, lo, hi):
    d = len(lo)
    return len(pts) == 2 ** d and near(pts[:, :d].min(axis=0), lo) and near(pts[:, :d].max(axis=0), hi) and near(pts[:, d:], 0) \
        and len(np.unique(pts.round(9), axis=0)) == 2 ** d


def check_ids(g, mesh, what, D, cls, lex=None, pick=None):
    """the DOLFINx ids stand for the same cells as the lexicographic ones"""
    lex = mesh_lex(mesh) if lex is None else lex
    a, b = np.asarray(g.cell_data[LEX]), np.asarray(g.cell_data[DLF])
    ok = len(a) == len(b) and np.all(b >= 0) and np.all(b < len(lex)) and np.array_equal(lex[b], a)
    mon.check(ok, what + "/local-ids", lambda: f"{a.tolist()} {b.tolist()}", D, f"{what}-ids/{cls}")
    n = mesh.topology.index_map(mesh.topology.dim).size_local
    start = mesh.topology.index_map(mesh.topology.dim).local_range[0]
    c = np.asarray(g.cell_data[GLB])
    mon.check(len(c) == len(b) and np.all(b < n) and np.array_equal(c, b + start), what + "/global-ids", lambda: f"{c.tolist()}", D, f"{what}-gids/{cls}")


def mesh_lex(m):
    return meshes.lex_cells(m, m._brk)


def check_grid(g, brk, cells, what, D, cls):
    """the grid draws exactly these cells, each with its id"""
    ids = np.asarray(g.cell_data[LEX]).tolist()
    mon.check(sorted(ids) == sorted(cells), what + "/cells", lambda: f"draws {sorted(ids)} instead of {sorted(cells)}", D, f"{what}-cells/{cls}")
    good = all(is_box(np.asarray(g.cell_points(i)), *box(brk, c)) for i, c in enumerate(ids))
    mon.check(good, what + "/geometry", "a cell is drawn at another place than the one of its id", D, f"{what}-geom/{cls}")


def grids():
    """Cartesian grids of any dimension"""
    dim = int(rng.integers(1, 4))
    from qugar.mesh import create_Cartesian_mesh, CartesianMesh
    if dim > 1 and rng.random() < 0.4:
        brk = [meshes.breaks(rng, int(rng.integers(1, 4))) for _ in range(dim)]
        g = stub.create_cart_grid(brk)
        D = dict(breaks=[b.tolist() for b in brk], cpp=True)
        n = int(np.prod([len(b) - 1 for b in brk]))
        for f in (PV.cart_grid_tp_to_PyVista, PV.grid_tp_to_PyVista):
            out = f(g)
            check_grid(out, brk, list(range(n)), "grid", D, f"{dim}D/cpp")
            mon.check(DLF not in out.cell_data, "grid/no-dolfinx-ids", "", D, f"{dim}D/cpp-ids")
        return
    dim = max(dim, 2)      # CartesianMesh is built from C++ grids, 2D or 3D

    def fac(comm, case):
        return CartesianMesh(comm, stub.create_cart_grid(case.breaks), case.degree,
                             None if case.active is None else np.sort(case.active), case.ghost)
    case = meshes.Case(rng, dims=(dim,), maxc=3, active=0.6, factory=fac)
    m = case.meshes[0]
    m._brk = case.breaks
    cls = case.cls
    n = case.ncells
    for f in (PV.cart_grid_tp_to_PyVista, PV.grid_tp_to_PyVista):
        out = f(m)
        check_grid(out, case.breaks, list(range(n)) if case.active is None else case.active.tolist(), "grid", case.describe(), cls)
        check_ids(out, m, "grid", case.describe(), cls)


def facet_of(brk, c, lf):
    lo, hi = box(brk, c)
    d, s = divmod(int(lf), 2)
    lo, hi = lo.copy(), hi.copy()
    if s:
        lo[d] = hi[d]
    else:
        hi[d] = lo[d]
    return lo, hi, d


def selections():
    a = [bool(v) for v in rng.integers(0, 2, 3)]
    if not any(a):
        a[int(rng.integers(3))] = True
    return a


def check_domain(dom, brk, status, facet_sets, mesh, D, cls):
    """status: lex cell -> full/cut/empty (of the cells of the mesh); facet_sets: status ->
    set of (lex cell, lex facet)"""
    kw = {}
    sel = [True, True, False] if rng.random() < 0.2 else selections()
    if sel != [True, True, False] or rng.random() < 0.5:
        kw = dict(full=sel[0], cut=sel[1], empty=sel[2])
    D = dict(D, **kw)
    want = [c for c, s in status.items() if sel[NAME.index(s)]]
    if want:
        g = plot.unfitted_domain_to_PyVista(dom, **kw)
        check_grid(g, brk, want, "domain", D, cls)
        ids, st = np.asarray(g.cell_data[LEX]).tolist(), np.asarray(g.cell_data[CS]).tolist()
        mon.check(all(NAME[s] == status[c] for c, s in zip(ids, st)), "domain/status",
                  lambda: f"{list(zip(ids, st))} {status}", D, "domain-status/" + cls)
        if mesh is not None:
            check_ids(g, mesh, "domain", D, cls)
    want = {f: s for k, s in enumerate(NAME) if sel[k] for f in facet_sets[s]}
    if want:
        g = plot.unfitted_domain_facets_to_PyVista(dom, **kw)
        cl, fl, st = (np.asarray(g.cell_data[k]).tolist() for k in (LEX, LF, FS))
        ps = list(zip(cl, fl))
        mon.check(sorted(ps) == sorted(want), "facets/set", lambda: f"missing {sorted(set(want) - set(ps))} extra {sorted(set(ps) - set(want))}",
                  D, "facets-set/" + cls)
        ok = all(want.get(p) == NAME[s] for p, s in zip(ps, st) if p in want)
        mon.check(ok and all(0 <= s <= 2 for s in st), "facets/status", lambda: f"{ps} {st}", D, "facets-status/" + cls)
        good = True
        for i, (c, lf) in enumerate(ps):
            lo, hi, d = facet_of(brk, c, lf)
            p = np.asarray(g.cell_points(i))[:, :len(lo)]
            good &= near(p.min(axis=0), lo) and near(p.max(axis=0), hi) and len(np.unique(p.round(9), axis=0)) == 2 ** (len(lo) - 1)
        mon.check(good, "facets/geometry", "a facet is drawn at another place than the one of its ids", D, "facets-geom/" + cls)
        cst = np.asarray(g.cell_data[CS]).tolist()
        mon.check(all(NAME[s] == status.get(c) for (c, _), s in zip(ps, cst)), "facets/cell-status", lambda: f"{ps} {cst}", D, "facets-cell-status/" + cls)
        if mesh is not None:
            check_ids(g, mesh, "facets", D, cls)
            check_df(g, len(brk), "facets", D, cls)


def check_df(g, dim, what, D, cls):
    fl, df = np.asarray(g.cell_data[LF]), np.asarray(g.cell_data[DF])
    side = faces_dlf(dim)
    ok = len(fl) == len(df) and all(0 <= j < 2 * dim and side[j] == divmod(int(i), 2) for i, j in zip(fl, df))
    mon.check(ok, what + "/facet-ids", lambda: f"{fl.tolist()} {df.tolist()}", D, f"{what}-fids/{cls}")


def rows(*cols):
    cols = [np.asarray(c, dtype=float) for c in cols]
    return np.concatenate([c[:, None] if c.ndim == 1 else c for c in cols], axis=1)


def same_rows(a, b):
    """the same set of rows (a point can be listed twice)"""
    if a.shape[1:] != b.shape[1:]:
        return False
    a, b = np.unique(a.round(8), axis=0), np.unique(b.round(8), axis=0)
    return a.shape == b.shape and near(a, b)


def place(x, lo, hi):
    p = np.zeros((len(x), 3))
    p[:, :len(lo)] = lo + x * (hi - lo)
    return p


def check_quad(dom, cdom, brk, mesh, D, cls):
    n = int(rng.integers(1, 6))
    d = len(brk)
    stub.calls.clear()
    kw = dict(n_pts_dir=n)
    if rng.random() < 0.1:
        n, kw = 4, {}
    mb = plot.quadrature_to_PyVista(dom, **kw)
    D = dict(D, n_pts_dir=n)
    mon.check(all(c[1] == n for c in stub.calls if c[0].startswith("create_")), "quad/n-pts", lambda: f"{stub.calls}", D, "quad-n-pts/" + cls)
    bound = [c for c in stub.calls if c[0] == "create_unfitted_bound_quadrature"]
    mon.check(len(bound) == 1, "quad/bound-calls", lambda: f"{bound}", D, "quad-bound-calls")
    cut = [c for c in range(cdom.num_total_cells) if cdom.cells[c] == "cut"]
    for key, kind in (("Cut cells quadrature", "cell"), ("Unfitted boundary quadrature", "unf")):
        exp = []
        for c in cut:
            x, w, nr = stub.entity_points(kind, "cut", c, -1, n, d)
            nn = np.zeros((len(w), 3))
            nn[:, :d] = nr
            exp.append(rows(place(x, *box(brk, c)), np.full(len(w), c), w, *([nn] if kind == "unf" else [])))
        exp = np.concatenate(exp) if exp else np.zeros((0, 5 if kind == "cell" else 8))
        g = mb[key]
        pts = np.array([g.cell_points(i)[0] for i in range(g.n_cells)]).reshape(-1, 3)
        got = [pts, g.cell_data[LEX], g.cell_data["Weights"]]
        if kind == "unf":
            got.append(np.asarray(g.cell_data["Normals"]).reshape(len(pts), -1) if len(pts) else np.zeros((0, 3)))
        else:
            mon.check("Normals" not in g.cell_data, "quad/normals", "normals inside", D, "quad-no-normals")
        mon.check(len(pts) == len(exp) and same_rows(rows(*got), exp), f"quad/{kind}", lambda: f"{len(pts)} points instead of {len(exp)}", D,
                  f"quad-{kind}/{cls}/{'some' if len(exp) else 'none'}")
        if mesh is not None:
            check_ids(g, mesh, "quad-" + kind, D, cls)
    exp = []
    for (c, lf), s in cdom.facets.items():
        s = stub.STATUS[s]
        if not s & {"cut", "unf"}:
            continue
        st = "full" if s & {"full", "fullunf"} else "cut"
        x, w, _ = stub.entity_points("ext", st, c, lf, n, d)
        lo, hi, k = facet_of(brk, c, lf)
        act = [i for i in range(d) if i != k]
        p = np.zeros((len(w), 3))
        p[:, k] = lo[k]
        for j, i in enumerate(act):
            p[:, i] = lo[i] + x[:, j] * (hi[i] - lo[i])
        exp.append(rows(p, np.full(len(w), c), np.full(len(w), lf), w))
    exp = np.concatenate(exp) if exp else np.zeros((0, 6))
    g = mb["Cut/unfitted facets quadrature"]
    pts = np.array([g.cell_points(i)[0] for i in range(g.n_cells)]).reshape(-1, 3)
    got = rows(pts, g.cell_data[LEX], g.cell_data[LF], g.cell_data["Weights"])
    mon.check(same_rows(got, exp), "quad/facets", lambda: f"{len(got)} rows for {len(exp)}", D, f"quad-facets/{cls}/{'some' if len(exp) else 'none'}")
    if mesh is not None:
        check_ids(g, mesh, "quad-facets", D, cls)
        check_df(g, d, "quad-facets", D, cls)


def domains(i):
    if rng.random() < 0.4:
        dim = 2 + i % 2
        brk = [meshes.breaks(rng, int(rng.integers(1, 5 if dim == 2 else 3))) for _ in range(dim)]
        seed = int(rng.integers(1 << 31))
        dom = stub.make_domain(stub.create_cart_grid(brk), np.random.default_rng(seed))
        D = dict(breaks=[b.tolist() for b in brk], seed=seed, cpp=True)
        status = dict(enumerate(dom.cells))
        fs = {s: {f for f, st in dom.facets.items() if s in stub.STATUS[st]} for s in NAME}
        check_domain(dom, brk, status, fs, None, D, f"{dim}D/cpp")
        check_quad(dom, dom, brk, None, D, f"{dim}D/cpp")
        return
    case = world.build(rng, i, ranks=(1,))
    m = case.meshes[0]
    brk = case.breaks
    brk = m.cpp_unf_domain_object.grid.cell_breaks
    m._brk = brk
    w = world.World(m, brk, m.cpp_unf_domain_object)
    D = dict(case.describe(), exclude=case.exclude, seed=case.seed, p=case.p.tolist(), how=case.how)
    cls = f"{case.dim}D/{'excl' if case.exclude else 'all'}"
    status = {int(c): w.dom.cells[c] for c in w.lex}
    fs = {s: {(int(w.lex[c]), w.lexf[c, lf]) for c, lf in w.facets(s, True)} for s in NAME}
    check_domain(m, brk, status, fs, m, D, cls)
    check_quad(m, w.dom, brk, m, D, cls)


DIMS = [(1, 2), (2, 2), (2, 3), (3, 3)]


def vtk_type(dim, p):
    return {1: [3, 9, 12], 2: [68, 70, 72]}[min(p, 2)][dim - 1]


def check_reparam_grid(g, pts, conn, dim, p, what, D, cls):
    """each drawn cell has the nodes of the cell, in VTK order"""
    lex = lex_nodes(dim, p)
    order = [lex.index(t) for t in vtk_nodes(dim, p)]
    want = [pts[row.astype(int)][order] for row in conn]
    P = np.zeros((0, 3))
    ok = g.n_cells == len(want) and set(int(t) for t in g.celltypes) == {vtk_type(dim, p)}
    mon.check(ok, what + "/cells", lambda: f"{g.n_cells} {g.celltypes}", D, f"{what}-cells/{cls}")
    bad = []
    drawn = [np.asarray(g.cell_points(i)) for i in range(g.n_cells)]
    left = list(range(len(want)))
    for c in drawn:                      # in any order of the cells
        hit = [k for k in left if c.shape[0] == len(order) and near(c[:, :pts.shape[1]], want[k]) and near(c[:, pts.shape[1]:], 0)]
        if hit:
            left.remove(hit[0])
        else:
            bad.append(c.tolist())
    mon.check(not bad and not left, what + "/nodes", lambda: f"unexpected cells {bad[:1]}", D, f"{what}-nodes/{cls}")
    del P


class FakeDomain:
    def __init__(self, comm):
        self.mesh = type("M", (), dict(comm=comm))()


def reparam(i):
    dim, gdim = DIMS[i % 4]
    p = int(rng.integers(1, 5))
    seed = int(rng.integers(1 << 31))
    r = stub.random_reparam(np.random.default_rng(seed), dim, gdim, p + 1)
    if rng.random() < 0.2:
        r.points = r.points.astype(np.float32).astype(np.float64)
    D = dict(dim=dim, gdim=gdim, degree=p, seed=seed)
    cls = f"{dim}_{gdim}/p{p}"
    mb = plot.reparam_mesh_to_PyVista(r)
    check_reparam_grid(mb["reparam"], r.points, r.cells_conn, dim, p, "reparam", D, cls)
    check_reparam_grid(mb["wirebasket"], r.points, r.wirebasket_conn, 1, p, "wires", D, cls)
    # through a DOLFINx mesh: cells must be disjoint or conforming for it
    n = (p + 1) ** dim
    nc = int(rng.integers(1, 4))
    pts = rng.normal(size=(n * nc, gdim))
    conn = rng.permutation(n * nc).reshape(nc, n).astype(np.uint64)
    edges = np.stack([row[[lex_nodes(dim, p).index(t) for t in e]] for row in conn for e in edges_of(dim, p)])
    r = type(r)(p + 1, pts, conn, edges)
    w = RP.UnfDomainReparamMesh(FakeDomain(MPI.COMM_WORLD), r)
    mon.check(w.cpp_object is r and w.unf_domain.mesh.comm is MPI.COMM_WORLD, "mesh/getters", "", D, "mesh-getters")
    for wb, c, t in ((False, conn, dim), (True, edges, 1)):
        m = w.create_mesh(wirebasket=wb) if wb or rng.random() < 0.5 else w.create_mesh()
        name = "mesh-wires" if wb else "mesh"
        mon.check(m.topology.dim == t and m.geometry.dim == gdim and m.geometry.cmap.degree == p and m.geometry.x.dtype == pts.dtype,
                  name + "/kind", lambda: f"{m.topology.dim} {m.geometry.dim}", D, f"{name}-kind/{cls}")
        el = m.geometry.cmap.element
        eq = basix.create_element(basix.ElementFamily.P, el.cell_type, p, basix.LagrangeVariant.equispaced)
        where = [lex_nodes(t, p).index(tuple(int(round(v * p)) for v in x)) for x in eq.points]
        good = len(m.geometry.dofmap) == len(c)
        for k, row in enumerate(m.geometry.dofmap):
            o = int(m.topology.original_cell_index[k])
            want = np.zeros((len(where), 3))
            want[:, :gdim] = pts[c[o].astype(int)][where]
            good = good and near(m.geometry.x[row], want)
        mon.check(good, name + "/nodes", "the nodes of a cell are not those of the reparameterization", D, f"{name}-nodes/{cls}")
        mon.check(el.degree == p and (p < 3 or el.lagrange_variant != basix.LagrangeVariant.unset), name + "/element", "", D, f"{name}-element/{p}")
    mb = plot.reparam_mesh_to_PyVista(w)
    check_reparam_grid(mb["reparam"], pts, conn, dim, p, "mesh-reparam", D, cls)
    check_reparam_grid(mb["wirebasket"], pts, edges, 1, p, "mesh-wires-reparam", D, cls)


def edges_of(dim, p):
    """node tuples along the edges of a cell"""
    import itertools
    if dim == 1:
        return [[(i,) for i in range(p + 1)]]
    out = []
    for d in range(dim):
        for o in itertools.product((0, p), repeat=dim - 1):
            e = []
            for i in range(p + 1):
                t = list(o)
                t.insert(d, i)
                e.append(tuple(t))
            out.append(e)
    return out


def misc(i):
    # the partitioner leaves every cell where it is
    rank = int(rng.integers(0, 4))
    t = int(rng.integers(1, 4))
    n = int(rng.integers(0, 9))
    cells = rng.integers(0, 50, n * 2 ** t).astype(np.int64)
    comm = MPI.Intracomm(rank, 4, {})
    a = identity_partitioner(comm, 4, [[CellType.interval, CellType.quadrilateral, CellType.hexahedron][t - 1]], [cells])
    mon.check(a.num_nodes == n and all(a.links(k).tolist() == [rank] for k in range(n)), "partitioner", lambda: f"{a.array}", dict(rank=rank, n=n, tdim=t),
              f"partitioner/{t}")
    # what is asked to the C++ side
    dim = 2 + i % 2
    dom = type("U", (), {})()
    brk = [np.linspace(0, 1, 3)] * dim
    cpp = stub.make_domain(stub.create_cart_grid(brk), np.random.default_rng(i))
    dom.cpp_unf_domain_object, dom.mesh = cpp, FakeDomain(MPI.COMM_WORLD).mesh
    deg, ls = int(rng.integers(1, 5)), bool(rng.integers(0, 2))
    kw = {} if deg == 3 and rng.random() < 0.5 else dict(degree=deg)
    if ls or rng.random() < 0.5:
        kw["levelset"] = ls
    stub.calls.clear()
    r = RP.create_reparam_mesh(dom, **kw)
    mon.check(stub.calls == [("levelset" if ls else "solid", deg + 1, False)] and r.unf_domain is dom and r.cpp_object.dim == dim - ls,
              "create-reparam", lambda: f"{kw} {stub.calls}", kw, f"create-reparam/{dim}/{ls}")
    # interpolation: all cells of the destination mesh, ghosts included
    nl, ng = int(rng.integers(0, 20)), int(rng.integers(0, 5))
    im = type("I", (), dict(size_local=nl, num_ghosts=ng))()
    top = type("T", (), dict(dim=t, index_map=lambda self, d: im if d == t else 1 / 0))()
    V = type("V", (), {})()
    V.mesh = type("M", (), dict(topology=top))()
    W = object()
    pad = float(rng.random())
    cells, data = RP.create_interpolation_data(V, W, pad)
    mon.check(cells.dtype == np.int32 and np.array_equal(cells, np.arange(nl + ng)) and data.V_to is V and data.V_from is W
              and np.array_equal(data.cells, cells) and data.padding == pad, "interpolation", lambda: f"{cells}", dict(n=nl, ghosts=ng), "interpolation")


def main():
    for i in range(mon.scale(60, 400)):
        for f in (lambda: grids(), lambda: domains(i), lambda: reparam(i), lambda: misc(i)):
            with mon.case("r01"):
                f()
    mon.done()


if __name__ == "__main__":
    main()
