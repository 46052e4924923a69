"""Stand-in for the compiled extension qugar.cpp.

The classification of cells and facets is not computed but drawn at random within what
the C++ unfitted domain may answer (see cpp/qugar/unfitted_domain.cpp): each cell cut,
full or empty; each facet one of the FacetStatus values. The queries mimic the C++ ones:
optional target arrays, answers in original (lexicographic) numbering. Every call is
recorded in `calls`. Quadratures carry recognisable values (see quad_id)."""
import numpy as np

__doc__ = "stand-in"
__version__ = "0.0.4"
calls = []

CUT, FULL, EMPTY = "cut", "full", "empty"
STATUS = {
    "cut": {"cut"}, "full": {"full"}, "empty": {"empty"},
    "cut_unf_bdry": {"cut", "unf"}, "cut_ext_bdry": {"cut"}, "cut_unf_bdry_ext_bdry": {"cut", "unf"},
    "full_unf_bdry": {"unf", "fullunf"}, "full_ext_bdry": {"empty"},
    "unf_bdry": {"unf"}, "ext_bdry": {"empty"}, "unf_bdry_ext_bdry": {"unf"},
}


class CartGridTP:
    def __init__(self, cell_breaks):
        self.cell_breaks = [np.asarray(b, dtype=np.float64) for b in cell_breaks]
        self.dim = len(cell_breaks)
        self.num_cells_dir = np.array([len(b) - 1 for b in cell_breaks], dtype=np.int32)
        self.num_cells = int(np.prod(self.num_cells_dir))

    def tid(self, c):
        t = []
        for n in self.num_cells_dir:
            t.append(int(c % n))
            c //= n
        return t

    def neighbour(self, c, lf):
        """cell on the other side of local facet lf (lexicographic), or None"""
        t = self.tid(c)
        d, s = divmod(lf, 2)
        t[d] += 1 if s else -1
        if not 0 <= t[d] < self.num_cells_dir[d]:
            return None
        f = 0
        for n, v in zip(self.num_cells_dir[::-1], t[::-1]):
            f = f * int(n) + v
        return f


    def get_cell_domain(self, c):
        if not 0 <= int(c) < self.num_cells:
            raise ValueError("cell id out of range")
        t = self.tid(int(c))
        return _Quad(min_corner=np.array([b[i] for b, i in zip(self.cell_breaks, t)]),
                     max_corner=np.array([b[i + 1] for b, i in zip(self.cell_breaks, t)]))


class CartGridTP_2D(CartGridTP):
    pass


class CartGridTP_3D(CartGridTP):
    pass


def create_cart_grid(cell_breaks):
    return (CartGridTP_2D if len(cell_breaks) == 2 else CartGridTP_3D)(cell_breaks)


class UnfittedDomain:
    def __init__(self, grid, rng, p=None):
        self.grid = grid
        self.dim = grid.dim
        n = grid.num_cells
        p = p if p is not None else rng.dirichlet([1, 1, 1])
        self.cells = [str(x) for x in rng.choice([CUT, FULL, EMPTY], size=n, p=p)]
        self.facets = {}
        inside = [s for s in STATUS]
        for c in range(n):
            for lf in range(2 * self.dim):
                st = self.cells[c]
                if st == CUT or (st == FULL and rng.random() < 0.2):
                    ext = grid.neighbour(c, lf) is None
                    opts = [s for s in inside if ext or "ext_bdry" not in s]
                    st = str(rng.choice(opts))
                self.facets[c, lf] = st

    @property
    def num_total_cells(self):
        return self.grid.num_cells

    def _cells(self, st, target):
        calls.append((st + "_cells", None if target is None else len(target)))
        src = range(self.grid.num_cells) if target is None else [int(c) for c in target]
        if target is not None and len(src) and not (0 <= min(src) and max(src) < self.grid.num_cells):
            raise ValueError("cell id out of range")
        return np.array([c for c in src if self.cells[c] == st], dtype=np.int64)

    def get_cut_cells(self, target_cell_ids=None):
        return self._cells(CUT, target_cell_ids)

    def get_full_cells(self, target_cell_ids=None):
        return self._cells(FULL, target_cell_ids)

    def get_empty_cells(self, target_cell_ids=None):
        return self._cells(EMPTY, target_cell_ids)

    def _facets(self, st, tc, tf):
        calls.append((st + "_facets", None if tc is None else len(tc)))
        src = list(self.facets) if tc is None else [(int(a), int(b)) for a, b in zip(tc, tf, strict=True)]
        for f in src:
            if f not in self.facets:
                raise ValueError(f"no such facet {f}")
        res = [f for f in src if st in STATUS[self.facets[f]]]
        return (np.array([f[0] for f in res], dtype=np.int64), np.array([f[1] for f in res], dtype=np.int32))

    def get_empty_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("empty", target_cell_ids, target_local_facet_ids)

    def get_full_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("full", target_cell_ids, target_local_facet_ids)

    def get_cut_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("cut", target_cell_ids, target_local_facet_ids)

    def get_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("unf", target_cell_ids, target_local_facet_ids)

    def get_full_unf_bdry_facets(self, target_cell_ids=None, target_local_facet_ids=None):
        return self._facets("fullunf", target_cell_ids, target_local_facet_ids)


class UnfittedDomain_2D(UnfittedDomain):
    pass


class UnfittedDomain_3D(UnfittedDomain):
    pass


def make_domain(grid, rng, p=None):
    return (UnfittedDomain_2D if grid.dim == 2 else UnfittedDomain_3D)(grid, rng, p)


class ImplicitFunc_2D:
    dim = 2
    seed = 0


class ImplicitFunc_3D:
    dim = 3
    seed = 0


def create_unfitted_impl_domain(impl_func, grid, cells=None):
    calls.append(("create_unfitted_impl_domain", None))
    return make_domain(grid, np.random.default_rng(getattr(impl_func, "seed", 0)), getattr(impl_func, "p", None))


class _Quad:
    def __init__(self, **k):
        self.__dict__.update(k)


def quad_id(kind, c, lf=-1):
    """Recognisable generator for the points of one entity."""
    return np.random.default_rng([{"cell": 1, "unf": 2, "ext": 3, "int": 4}[kind], int(c), int(lf) + 1])


def entity_points(kind, status, c, lf, n_pts_dir, dim):
    """(points, weights, normals) of one entity; a full entity gets the tensor rule's
    count, a cut one a random count, an empty one nothing."""
    g = quad_id(kind, c, lf)
    d = dim if kind in ("cell", "unf") else dim - 1
    if kind == "unf":
        n = int(g.integers(1, 7)) * n_pts_dir if status == CUT else 0
    elif status == FULL:
        n = n_pts_dir ** d
    elif status == CUT:
        n = int(g.integers(0, 9)) * n_pts_dir
    else:
        n = 0
    x = g.random((n, d))
    w = g.random(n) + 0.01
    nrm = g.normal(size=(n, dim))
    nrm /= np.linalg.norm(nrm, axis=1, keepdims=True) if n else 1.0
    return x, w, nrm


def _gather(parts, d, dim):
    n = np.array([len(p[1]) for p in parts], dtype=np.int32)
    cat = lambda i, k: (np.concatenate([p[i] for p in parts]) if parts else np.zeros((0, k) if k else 0))  # noqa
    return dict(n_pts_per_entity=n, points=cat(0, d).reshape(-1, d), weights=cat(1, 0), normals=cat(2, dim).reshape(-1, dim))


def _check_cells(dom, cells):
    if cells.dtype != np.int64:
        raise TypeError("incompatible function arguments: cells must be int64")
    if cells.size and not (0 <= cells.min() and cells.max() < dom.num_total_cells):
        raise ValueError("cell id out of range")


def create_quadrature(unf_domain, cells, n_pts_dir, full_cells=False):
    calls.append(("create_quadrature", n_pts_dir))
    _check_cells(unf_domain, cells)
    d = unf_domain.dim
    parts = [entity_points("cell", unf_domain.cells[int(c)], c, -1, n_pts_dir, d) for c in cells]
    q = _Quad(cells=cells, **_gather(parts, d, d))
    del q.normals
    return q


def create_unfitted_bound_quadrature(unf_domain, cells, n_pts_dir, include_facet_unf_bdry, exclude_ext_bdry):
    calls.append(("create_unfitted_bound_quadrature", n_pts_dir, include_facet_unf_bdry, exclude_ext_bdry))
    _check_cells(unf_domain, cells)
    d = unf_domain.dim
    parts = [entity_points("unf", unf_domain.cells[int(c)], c, -1, n_pts_dir, d) for c in cells]
    return _Quad(cells=cells, **_gather(parts, d, d))


def _facet_quad(kind, dom, cells, facets, n_pts_dir):
    calls.append(("create_facets_quadrature_" + kind, n_pts_dir))
    _check_cells(dom, cells)
    if facets.dtype != np.int32:
        raise TypeError("incompatible function arguments: facets must be int32")
    parts = []
    for c, f in zip(cells, facets, strict=True):
        s = STATUS[dom.facets[int(c), int(f)]]
        if kind == "ext":
            st = FULL if s & {"full", "fullunf"} else CUT if s & {"cut", "unf"} else EMPTY
        else:
            st = FULL if "full" in s else CUT if "cut" in s else EMPTY
        parts.append(entity_points(kind, st, c, f, n_pts_dir, dom.dim))
    return _Quad(cells=cells, facets=facets, **_gather(parts, dom.dim - 1, dom.dim))


def create_facets_quadrature_exterior_integral(unf_domain, cells, facets, n_pts_dir):
    return _facet_quad("ext", unf_domain, cells, facets, n_pts_dir)


def create_facets_quadrature_interior_integral(unf_domain, cells, facets, n_pts_dir):
    return _facet_quad("int", unf_domain, cells, facets, n_pts_dir)


def _named(name, **k):
    return type(name, (), dict(k))


AffineTransf_2D, AffineTransf_3D = _named("AffineTransf_2D", dim=2), _named("AffineTransf_3D", dim=3)
RefSystem_2D, RefSystem_3D = _named("RefSystem_2D", dim=2), _named("RefSystem_3D", dim=3)


class _Reparam:
    def __init__(self, order, points, cells_conn, wirebasket_conn):
        self.order, self.points = order, points
        self.cells_conn, self.wirebasket_conn = cells_conn, wirebasket_conn


ReparamMesh_1_2 = type("ReparamMesh_1_2", (_Reparam,), dict(dim=1, range=2))
ReparamMesh_2_2 = type("ReparamMesh_2_2", (_Reparam,), dict(dim=2, range=2))
ReparamMesh_2_3 = type("ReparamMesh_2_3", (_Reparam,), dict(dim=2, range=3))
ReparamMesh_3_3 = type("ReparamMesh_3_3", (_Reparam,), dict(dim=3, range=3))
CutCellsQuad_2D, CutCellsQuad_3D = _named("CutCellsQuad_2D"), _named("CutCellsQuad_3D")
CutIsoBoundsQuad_1D, CutIsoBoundsQuad_2D = _named("CutIsoBoundsQuad_1D"), _named("CutIsoBoundsQuad_2D")
CutUnfBoundsQuad_2D, CutUnfBoundsQuad_3D = _named("CutUnfBoundsQuad_2D"), _named("CutUnfBoundsQuad_3D")


def random_reparam(rng, dim, gdim, order):
    """cells sharing some points, nodes with the first direction fastest"""
    nc, n = int(rng.integers(1, 5)), order ** dim
    npts = int(rng.integers(n, n * nc + 1))
    pts = rng.normal(size=(npts, gdim))
    conn = np.stack([rng.permutation(npts)[:n] for _ in range(nc)]).astype(np.uint64)
    wires = np.stack([rng.permutation(npts)[:order] for _ in range(int(rng.integers(1, 6)))]).astype(np.uint64)
    cls = {(1, 2): ReparamMesh_1_2, (2, 2): ReparamMesh_2_2, (2, 3): ReparamMesh_2_3, (3, 3): ReparamMesh_3_3}[dim, gdim]
    return cls(order, pts, conn, wires)


def _reparam(kind, unf_domain, n_pts_dir, merge_points):
    calls.append((kind, n_pts_dir, merge_points))
    d = unf_domain.dim
    return random_reparam(np.random.default_rng(n_pts_dir), d - (kind == "levelset"), d, n_pts_dir)


def create_reparameterization(unf_domain, n_pts_dir, merge_points):
    return _reparam("solid", unf_domain, n_pts_dir, merge_points)


def create_reparameterization_levelset(unf_domain, n_pts_dir, merge_points):
    return _reparam("levelset", unf_domain, n_pts_dir, merge_points)
