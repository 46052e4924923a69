"""Random unfitted Cartesian meshes and what the classification says about their entities.
Import after use_stubs()."""
import numpy as np
import qugar.cpp as stub
from qugar.mesh import unfitted_cart_mesh as UC
from drivers import meshes


def pairs(f):
    return list(zip(f.cell_ids.tolist(), f.local_facet_ids.tolist()))


class World:
    """what must be answered on one rank"""

    def __init__(self, mesh, brk, dom):
        self.mesh, self.dom, self.brk = mesh, dom, brk
        top = mesh.topology
        d = self.d = top.dim
        imap = top.index_map(d)
        self.nloc = imap.size_local
        self.lex = meshes.lex_cells(mesh, brk)
        fp = meshes.facet_pairs(mesh)
        n = top.index_map(d - 1).size_local
        total = top._shared["facet_cells"]()
        self.ext = {p for f in range(n) if total[top._ents[d - 1][f]] == 1 for p in fp[f]}
        self.all = {p for f in range(n) for p in fp[f]}
        self.int = self.all - self.ext
        # local facet numbering of the original grid, by position
        mid = meshes.facet_midpoints(mesh)
        self.lexf = {}
        for c in range(len(self.lex)):
            for lf in range(2 * d):
                for of in range(2 * d):
                    if np.abs(meshes.lex_facet_midpoint(brk, self.lex[c], of) - mid[c, lf]).max() < 1e-5:
                        self.lexf[c, lf] = of
        assert len(self.lexf) == 2 * d * len(self.lex)

    def st(self, p):
        return stub.STATUS[self.dom.facets[int(self.lex[p[0]]), self.lexf[p]]]

    def cells(self, kind):
        return [c for c in range(self.nloc) if self.dom.cells[self.lex[c]] == kind]

    def has(self, src, what):
        return {p for p in src if what in self.st(p)}

    def facet_rule(self, p, ext):
        """which rule the C++ side makes for the facet"""
        s = self.st(p)
        if ext:
            return "full" if s & {"full", "fullunf"} else "cut" if s & {"cut", "unf"} else "empty"
        return "full" if "full" in s else "cut" if "cut" in s else "empty"

    def facet_points(self, p, ext, n):
        return stub.entity_points("ext" if ext else "int", self.facet_rule(p, ext), int(self.lex[p[0]]), self.lexf[p], n, self.d)

    def facets(self, kind, ext):
        if ext:
            full_unf = self.has(self.all, "fullunf")
            if kind == "cut":
                return self.has(self.ext, "cut") | (self.has(self.all, "unf") - full_unf)
            if kind == "full":
                return self.has(self.ext, "full") | full_unf
            return self.has(self.ext, "empty")
        if kind == "empty":
            return self.has(self.int, "empty") | {p for p in self.int if "unf" in self.st(p) and "cut" not in self.st(p)}
        return self.has(self.int, kind)


def build(rng, i, ranks=(1, 1, 2, 3)):
    dim = 2 + i % 2
    n = [int(rng.integers(1, 6 if dim == 2 else 4)) for _ in range(dim)]
    exclude = bool(rng.random() < 0.5)
    p = rng.dirichlet([1, 1, 1]) if rng.random() < 0.8 else np.eye(3)[int(rng.integers(0, 3))]
    dtype = [np.float64, np.float32][int(rng.integers(0, 2))]
    how = i % 3
    seed = int(rng.integers(1 << 31))
    state = {}

    def factory(comm, case):
        if how < 2:
            if "dom" not in state:
                state["grid"] = stub.create_cart_grid(case.breaks)
                state["dom"] = stub.make_domain(state["grid"], np.random.default_rng(seed), p)
                live(state["dom"])
            return UC.UnfittedCartMesh(comm, state["dom"], state["grid"], case.degree, exclude, case.ghost, dtype)
        f = type("F", (), {})()
        f.dim, f.cpp_object = dim, type("C", (), dict(seed=seed, p=p))()
        kw = {}
        if state.setdefault("lohi", int(rng.integers(0, 4))) & 1:
            kw["xmin"] = np.array([-1.0, 0.5, 2.0][:dim], dtype=dtype)
        if state["lohi"] & 2:
            kw["xmax"] = np.array([1.5, 2.5, 3.0][:dim], dtype=dtype)
        if not kw and dtype == np.float32:
            kw["dtype"] = dtype
        if len(kw) == 1 and ("xmin" in kw):
            kw["xmin"] = kw["xmin"] - dtype(5)
        m = UC.create_unfitted_impl_Cartesian_mesh(comm, f, case.n[0] if len(set(case.n)) == 1 else list(case.n), degree=case.degree,
                                                   exclude_empty_cells=exclude, ghost_mode=case.ghost, **kw)
        lo = kw.get("xmin", np.zeros(dim))
        hi = kw.get("xmax", np.ones(dim))
        case.breaks = [np.linspace(lo[k], hi[k], case.n[k] + 1) for k in range(dim)]
        return m

    def live(dom):
        if exclude and all(c == "empty" for c in dom.cells):
            dom.cells[0] = "cut"

    if how == 2 and exclude and np.allclose(p, [0, 0, 1]):
        exclude = False
    case = meshes.Case(rng, n=n, active=0, ranks=ranks, factory=factory)
    case.exclude, case.dtype, case.how, case.p, case.seed = exclude, dtype, how, p, seed
    return case


def npd(degree):
    """smallest number of Gauss points that integrates the degree"""
    n = 1
    while 2 * n - 1 < degree:
        n += 1
    return n
