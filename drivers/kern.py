"""K01/K02: generated kernels run over packed meshes.

Random integrals written as the form compiler writes them go through the code generation,
are compiled (with sanitizers), fed with the coefficients of the real packer and called
for every entity. K01 compares custom entities with the direct evaluation of the integrand at the entity's own
points; K02 compares the others with the kernel as it was before."""
import ctypes
import importlib.util
import os
import re
import shutil
import subprocess
import tempfile
import types

import basix
import numpy as np

from drivers.mon import REPO, SPEC, VERIF, HarnessError, Monitor, use_stubs

mon = Monitor()
use_stubs()
import dolfinx.fem  # noqa
import ffcx.codegeneration.codegeneration as fcg  # noqa
from dolfinx.cpp.fem import _IntegralType as IT  # noqa
from qugar.dolfinx import codegeneration  # noqa
from qugar.dolfinx.boundary import ParamNormal, ds_bdry_unf  # noqa
from qugar.dolfinx.custom_coefficients import CustomCoeffsPacker  # noqa
from qugar.mesh.mesh_facets import MeshFacets  # noqa
from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC  # noqa
from qugar.quad import CustomQuad, CustomQuadFacet, CustomQuadUnfBoundary  # noqa
from drivers import kgen, meshes  # noqa
from drivers.simplemesh import some_mesh  # noqa

rng = mon.nprng("kern")
WHAT = SPEC.get("what", "custom")
I32 = np.int32
TYPES = kgen.TYPES
tmp = tempfile.mkdtemp(prefix="vq_kern_")
LOG = os.environ.get("KERN_LOG", "")


# ---------------------------------------------------------------- the unfitted domain
class Domain(UnfittedDomainABC):
    """random classification and quadratures, the same whenever they are asked for"""

    def __init__(self, mesh, kind, salt):
        super().__init__(mesh)
        self.kind, self.salt, self.d = kind, salt, mesh.topology.dim
        n = mesh.topology.index_map(self.d).size_local
        q = np.random.default_rng(salt)
        share = [(0.6, 0.25, 0.15), (1, 0, 0), (0.3, 0.35, 0.35)][int(q.integers(3))]
        self.cells = q.choice(3, n, p=share)
        self.pairs = [p for p in meshes.facet_pairs(mesh).values()]
        self.ext = {f: int(q.choice(3, p=share)) for p in self.pairs for f in p}
        self.int = {}
        for p in self.pairs:
            if len(p) == 2:
                s = int(q.choice(3, p=share))
                for f in p:
                    self.int[f] = s

    def _c(self, s):
        return np.flatnonzero(self.cells == s).astype(I32)

    def get_cut_cells(self):
        return self._c(0)

    def get_full_cells(self):
        return self._c(1)

    def get_empty_cells(self):
        return self._c(2)

    def _f(self, s, ext):
        f = np.array(sorted(k for k, v in (self.ext if ext else self.int).items() if v == s), dtype=I32).reshape(-1, 2)
        return MeshFacets(f[:, 0].copy(), f[:, 1].copy())

    def get_cut_facets(self, ext_integral=True):
        return self._f(0, ext_integral)

    def get_full_facets(self, ext_integral=True):
        return self._f(1, ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._f(2, ext_integral)

    def pts(self, kind, ent, degree):
        """(points, weights, normals) of an entity"""
        key = {"cell": 0, "unf": 1, "ext": 2, "int": 3}[kind]
        q = np.random.default_rng([self.salt, key, degree, *np.atleast_1d(ent).tolist()])
        n = int(q.choice([0, 1, 2, 3, 5, 7], p=[0.12, 0.18, 0.2, 0.2, 0.2, 0.1]))
        shape = self.kind if key < 2 else kgen.FACET[self.kind]
        dim = self.d if key < 2 else self.d - 1
        p = q.random((n, dim))
        if shape in ("triangle", "tetrahedron"):
            p = -np.log(p)
            p = p / (p.sum(axis=1) - np.log(q.random(n)))[:, None]
        w = q.uniform(0.1, 1.0, n)
        nr = q.normal(size=(n, self.d))
        return p, w, nr / np.linalg.norm(nr, axis=1)[:, None] if n else nr

    def _all(self, kind, ents, degree, dim):
        d = [self.pts(kind, e, degree) for e in ents]
        n = np.array([len(x[1]) for x in d], dtype=I32)
        cat = lambda k, m: np.concatenate([x[k] for x in d]) if d else np.zeros((0, m) if m else 0)  # noqa
        return n, cat(0, dim), cat(1, 0), cat(2, self.d)

    def create_quad_custom_cells(self, degree, cells):
        n, p, w, _ = self._all("cell", cells, degree, self.d)
        return CustomQuad(cells, n, p, w)

    def create_quad_unf_boundaries(self, degree, cells):
        return CustomQuadUnfBoundary(cells, *self._all("unf", cells, degree, self.d))

    def create_quad_custom_facets(self, degree, facets, ext_integral):
        n, p, w, _ = self._all("ext" if ext_integral else "int", list(zip(facets.cell_ids.tolist(), facets.local_facet_ids.tolist())), degree, self.d - 1)
        return CustomQuadFacet(facets, n, p, w)


# ---------------------------------------------------------------- oracle for facets
def vertex_weights(shape, p):
    if shape == "interval":
        return np.stack([1 - p[:, 0], p[:, 0]], axis=1)
    x, y = p.T
    if shape == "triangle":
        return np.stack([1 - x - y, x, y], axis=1)
    return np.stack([(1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y], axis=1)


def across(kind, mesh, f0, f1, p):
    """cell points of the other side of a facet: same weights for the same vertices"""
    ct = getattr(basix.CellType, kind)
    top, geo = basix.topology(ct)[-2], basix.geometry(ct)
    c2v = mesh.topology.connectivity(mesh.topology.dim, 0)
    v0 = [int(c2v.links(f0[0])[k]) for k in top[f0[1]]]
    v1 = {int(c2v.links(f1[0])[k]): geo[k] for k in top[f1[1]]}
    return vertex_weights(kgen.FACET[kind], p) @ np.array([v1[v] for v in v0])


def unpermute(shape, p, perm):
    q = p
    for _ in range(8):
        n = kgen.permute(shape, q, perm)
        if np.allclose(n, p, atol=1e-14):
            return q
        q = n
    raise HarnessError("permutation without an inverse")


# ---------------------------------------------------------------- the form
class FakeForm:
    """what the packer uses of a DOLFINx form"""

    def __init__(self, mesh, dtype, integrals):
        # integrals: (type, subdomain id, domain, cstride)
        order = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")
        self.dtype, self.mesh, self._cpp_object = np.dtype(dtype), mesh, self
        ids = [i for t in order for i in integrals if i[0] == t]
        off = np.cumsum([0] + [sum(i[0] == t for i in integrals) for t in order])
        self._ufcx_form = types.SimpleNamespace(form_integral_offsets=[int(o) for o in off], form_integral_ids=[i[1] for i in ids])
        self.keys = {}
        for t in TYPES:
            for k, i in enumerate([i for i in ids if i[0] == t]):
                self.keys[IT[t], k] = i
        self.refresh()

    def refresh(self):
        self.vals = {}
        for key, (t, _, dom, cs) in self.keys.items():
            v = rng.normal(size=(len(dom) * (2 if t == "interior_facet" else 1) if cs else 0, cs))
            if self.dtype.kind == "c":
                v = v + 1j * rng.normal(size=v.shape)
            self.vals[key] = v.astype(self.dtype)

    def packed(self):
        return {k: v.copy() for k, v in self.vals.items()}

    def domains(self, t, k):
        return self.keys[t, k][2].copy()


def some(seq):
    k = len(seq) if rng.random() < 0.7 else int(rng.integers(0, len(seq) + 1))
    return [seq[int(j)] for j in rng.permutation(len(seq))[:k]]


def domain(dom, t, most):
    if t == "cell":
        d = some(range(len(dom.cells)))[:most]
        return np.array(sorted(d) if rng.random() < 0.5 else d, dtype=I32)
    if t == "exterior_facet":
        src = sorted(f for p in dom.pairs for f in p if len(p) == 1 or rng.random() < 0.3)
        return np.array(some(src)[:most], dtype=I32).reshape(-1, 2)
    twos = sorted(p for p in dom.pairs if len(p) == 2)
    return np.array([p if rng.random() < 0.5 else p[::-1] for p in some(twos)[:most]], dtype=I32).reshape(-1, 2, 2)


# ---------------------------------------------------------------- native side
libc = ctypes.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes, libc.free.argtypes = ctypes.c_void_p, [ctypes.c_size_t], [ctypes.c_void_p]


class Buf:
    """an exact copy of an array on the (sanitized) heap"""

    def __init__(self, a):
        self.a = np.ascontiguousarray(a)
        self.n = self.a.nbytes
        self.p = libc.malloc(max(self.n, 1))
        ctypes.memmove(self.p, self.a.ctypes.data, self.n)

    def get(self):
        out = np.empty_like(self.a)
        ctypes.memmove(out.ctypes.data, self.p, self.n)
        return out

    def free(self):
        libc.free(self.p)


def shim():
    spec = importlib.util.spec_from_file_location("shim_kern", os.path.join(REPO, "python/qugar/dolfinx/_shim/__init__.py"))
    s = importlib.util.module_from_spec(spec)
    old = os.environ.get("LD_PRELOAD")
    os.environ.pop("LD_PRELOAD", None)
    os.environ["QUGAR_SHIM_CACHE"] = os.path.join(tmp, "shim")
    try:
        spec.loader.exec_module(s)
        cache, name = s.ensure_built()
    finally:
        if old:
            os.environ["LD_PRELOAD"] = old
    return os.path.join(str(cache), f"lib{name}.so")


SAN = ["-fsanitize=address,undefined", "-fsanitize-recover=all", "-fno-sanitize=alignment"] if LOG else []
FLAGS = ["-std=c17", "-O1", "-g1", "-fPIC", "-shared", "-w", "-ffp-contract=off", "-fno-builtin-malloc", f"-I{VERIF}/stubs/include", *SAN]


def build(text, name, libs=()):
    c, so = os.path.join(tmp, name + ".c"), os.path.join(tmp, name + ".so")
    with open(c, "w") as f:
        f.write(text)
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    p = subprocess.run(["gcc", *FLAGS, c, *libs, "-lm", "-o", so], capture_output=True, text=True, env=env)
    return (so, "") if p.returncode == 0 else (None, p.stderr)


def log_new():
    """what the sanitizers wrote since the last time"""
    out = ""
    for f in os.listdir(os.path.dirname(LOG)) if LOG else []:
        if f == f"{os.path.basename(LOG)}.{os.getpid()}":
            with open(os.path.join(os.path.dirname(LOG), f), "r+") as h:
                out += h.read()
                h.truncate(0)
    return out


def calling(what):
    """tells the check what is running, in case it never comes back"""
    if LOG:
        with open(f"{LOG}.cur.{os.getpid()}", "w") as f:
            f.write(what)


# ---------------------------------------------------------------- generation
CELLS = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]


class Case:
    pass


def some_case(i):
    """a form with one to three integrals through the code generation"""
    c = Case()
    c.kind = CELLS[i % 4]
    c.dtype = ["float64", "float64", "float32", "complex128", "complex64"][int(rng.integers(5))]
    c.mesh = some_mesh(rng, c.kind, 3 if c.kind in ("triangle", "quadrilateral") else 2)
    d = kgen.DIM[c.kind]
    mds = {d: ds_bdry_unf(c.mesh).metadata()}
    c.kernels, tries = [], 0
    n = int(rng.choice([1, 1, 2, 3]))
    itype0 = TYPES[int(rng.integers(3))]
    while len(c.kernels) < n:
        tries += 1
        if tries > 400:
            raise HarnessError(f"no integral for {c.kind}")
        t = itype0 if not c.kernels else TYPES[int(rng.integers(3))]
        try:
            k = kgen.Kernel(rng, c.kind, t, c.dtype, unf_metadata=mds, mixed=bool(rng.random() < 0.3), one_point=bool(rng.random() < 0.15),
                            uid=(i, len(c.kernels)), normal_factory=lambda: ParamNormal(c.mesh))
            k.text = k.code()
        except kgen.Reject as e:
            mon.count("rejected: " + str(e))
            continue
        if sum(t.values.size for t in k.tables.values() if getattr(t, "owner", False)) > 150000:
            mon.count("rejected: large")
            continue
        c.kernels.append(k)
    c.ids, used = [], {t: set() for t in TYPES}
    for k in c.kernels:
        free = [s for s in (-1, 0, 1, 2, 5, 9) if s not in used[k.itype]]
        s = sorted(int(x) for x in rng.choice(free, size=int(rng.integers(1, 3)) if len(free) > 3 else 1, replace=False))
        used[k.itype].update(s)
        c.ids.append(s)
    c.D = dict(kind=c.kind, dtype=c.dtype, kernels=[k.describe() for k in c.kernels], ids=c.ids)
    blk = kgen.blocks(c.kernels)
    fcg.generate_code = lambda ir, opt: kgen.blocks(c.kernels)
    c.ok = False
    odd = [str(e) for k in c.kernels for e in [*k.args, *(x.el for x in k.coefs)] if not kgen.default_element(e)]
    if odd:
        # all their tables may be constant: refusing is not a must, wrong values are
        c.odd = True
        try:
            out, c.data = codegeneration.generate_code(kgen.ufl_data(c.kernels), kgen.data_ir(c.kernels, c.ids), dict(kgen.OPTIONS, scalar_type=c.dtype))
            c.ok = True
            mon.count("odd element accepted")
        except ValueError:
            mon.count("odd element refused")
            return c
    with mon.case("generate", c.D):
        out, c.data = codegeneration.generate_code(kgen.ufl_data(c.kernels), kgen.data_ir(c.kernels, c.ids), dict(kgen.OPTIONS, scalar_type=c.dtype))
        c.ok = True
    if c.ok:
        c.out, c.blk = out, blk
        if WHAT == "standard":
            blocks_check(c, out, blk)
            fcg.generate_code = lambda ir, opt: kgen.blocks(c.kernels)
            again, _ = codegeneration.generate_code(kgen.ufl_data(c.kernels), kgen.data_ir(c.kernels, c.ids), dict(kgen.OPTIONS, scalar_type=c.dtype))
            mon.check(tuple(map(list, again)) == tuple(map(list, out)), "generate/repeat", "generating twice gives different code", c.D, "repeat")
    return c


def squeeze(s):
    return re.sub(r"\s+", " ", s)


def blocks_check(c, out, blk):
    """everything around the kernels stays"""
    D = c.D
    mon.check([list(out.forms), list(out.expressions), list(out.file_post)] == [list(blk.forms), list(blk.expressions), list(blk.file_post)],
              "blocks/other", "blocks other than integrals changed", D, "blocks")
    mon.check([h for h, _ in out.integrals] == [h for h, _ in blk.integrals], "blocks/declarations", "declarations changed", D, "declarations")
    a, b = out.file_pre[0], blk.file_pre[0]
    lines = [x for x in a[1].splitlines() if x not in b[1].splitlines()]
    mon.check(a[0] == b[0] and all(x.startswith("#include") for x in lines) and
              [x for x in a[1].splitlines() if x not in lines] == b[1].splitlines(), "blocks/header", lambda: f"header changed: {lines}", D, "header")
    for k, (_, new), (_, old) in zip(c.kernels, out.integrals, blk.integrals):
        i, j = old.index("void tabulate_tensor"), old.rindex("\n}\n\n" + ("bool" if k.coefs else "ufcx_integral")) + 3
        head, tail = squeeze(old[:i]).strip(), squeeze(old[j:]).strip()
        mon.check(head in squeeze(new) and squeeze(new).rstrip().endswith(tail), "blocks/around", "text around the kernel changed", D,
                  f"around/{k.itype}/{len(k.coefs) > 0}")


def points_of(c, k, dom, ent, q):
    """what the kernel must use: data for Kernel.evaluate, in the precision it is given"""
    real = k.real
    d = {}
    mesh = c.mesh
    for r in k.rules:
        deg = q[r.id].degree
        if k.itype == "cell":
            p, w, n = dom.pts("unf" if r.unf else "cell", ent[0][0], deg)
            X, F = [p], None
        else:
            p, w, n = dom.pts("ext" if k.itype == "exterior_facet" else "int", ent[0], deg)
            X = [kgen.onto_cell(k.cell, ent[0][1], p)]
            if k.itype == "interior_facet":
                X.append(across(k.cell, mesh, ent[0], ent[1], p))
            F = unpermute(k.fshape, p, c.perms[ent[0]]) if len(p) else p
        f = lambda a: None if a is None else a.astype(real).astype(np.float64)  # noqa
        d[r.id] = dict(X=[f(x) for x in X], F=f(F), w=f(w), n=f(n))
    return d


def run_case(c, new, old):
    D = c.D
    mesh = c.mesh
    dom = Domain(mesh, c.kind, int(rng.integers(1 << 40)))
    mesh.topology.create_entity_permutations()
    c.perms = mesh.topology.get_facet_permutations().reshape(-1, kgen.n_facets(c.kind))
    integrals, owner = [], {}
    most = mon.scale(6, 14)
    for k, ids, dat in zip(c.kernels, c.ids, c.data):
        for s in ids:
            integrals.append((k.itype, s, domain(dom, k.itype, most), k.cstride_total // k.nside))
            owner[k.itype, s] = (k, dat)
    form = FakeForm(mesh, c.dtype, integrals)
    with mon.case("pack", D):
        co = CustomCoeffsPacker(form, dom, c.data).pack_coefficients()
        for key, (t, s, ents, cs) in form.keys.items():
            k, dat = owner[t, s]
            q = {x.name: x for x in dat.quad_data_FE_tables}
            mon.check(set(q) == {r.id for r in k.rules}, "data/rules", lambda: f"{sorted(q)} for {sorted(r.id for r in k.rules)}", D, f"rules/{len(q)}")
            for r in k.rules:
                mon.check(q[r.id].degree >= max([r.degree, *r.also]), "data/degree", lambda: f"degree {q[r.id].degree} for {r.degree} and {r.also}", D,
                          f"degree/{len(r.also)}/{r.unf}")
                mon.check(bool(q[r.id].unfitted_boundary) == r.unf, "data/unfitted", lambda: f"{q[r.id].unfitted_boundary} for {r.unf}", D, f"unf/{r.unf}")
            call_all(c, k, dom, key, ents, co[key], form.vals[key], q, new, old)


def call_all(c, k, dom, key, ents, arr, vals, q, new, old):
    t = k.itype
    dt = np.dtype(c.dtype)
    real = np.dtype(k.real)
    name = f"tabulate_tensor_integral_{k.name}_{k.cell}"
    fn = getattr(new, name)
    fn.restype, fn.argtypes = None, [ctypes.c_void_p] * 7
    W = Buf(arr)
    nrow = 2 if t == "interior_facet" else 1
    nc = k.cel.dim // k.d
    size = int(np.prod(k.dims)) if k.rank else 1
    for e in range(len(ents)):
        if t == "cell":
            ent = [(int(ents[e]), -1)]
            state = int(dom.cells[ent[0][0]])
        else:
            ent = [tuple(int(x) for x in f) for f in np.atleast_2d(ents[e])]
            state = (dom.ext if t == "exterior_facet" else dom.int)[ent[0]]
        if (WHAT == "custom") != (state == 0):
            continue
        x = np.zeros((nrow, nc, 3))
        x[:, :, :k.d] = rng.normal(size=(nrow, nc, k.d))
        x = x.astype(real)
        cst = rng.normal(size=k.n_c)
        cst = (cst + 1j * rng.normal(size=k.n_c) if dt.kind == "c" else cst).astype(dt)
        A0 = rng.normal(size=size)
        A0 = (A0 + 1j * rng.normal(size=size) if dt.kind == "c" else A0).astype(dt) if rng.random() < 0.5 else np.zeros(size, dt)
        lf = np.array([f[1] for f in ent], dtype=np.intc) if t != "cell" else np.zeros(0, np.intc)
        pm = np.array([c.perms[f] for f in ent], dtype=np.uint8) if t != "cell" else np.zeros(0, np.uint8)
        bufs = [Buf(a) for a in (A0, cst, x, lf, pm)]
        log_new()
        calling(f"{k.itype} {k.cell} {c.dtype} entity {e} {ent} of {k.describe()}")
        fn(bufs[0].p, W.p + e * nrow * arr.shape[1] * dt.itemsize, bufs[1].p, bufs[2].p, bufs[3].p if t != "cell" else None,
           bufs[4].p if t != "cell" else None, None)
        calling("")
        rep = log_new()
        A = bufs[0].get()
        for b in bufs:
            b.free()
        n_pts = None
        D = dict(c.D, key=str(key), entity=e, ent=ent, kernel=k.describe(), state=["custom", "full", "empty"][state],
                 code=k.text if len(k.text) < 20000 else k.text[:20000])
        cls = f"{t}/{k.cell}/{c.dtype}/r{k.rank}/q{len(k.rules)}{'u' if k.has_unf else ''}{'m' if k.mixed else ''}"
        if rep:
            m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*)", rep)
            mon.bad(f"sanitizer/{t}", (m.group(1) if m else "report") + "\n" + rep[:1500], D)
        w = np.concatenate([vals[nrow * e + s] for s in range(nrow)]) if vals.size else np.zeros(0)
        if k.itype == "interior_facet" and vals.size:
            # both sides of each coefficient one after the other, as the packing gives them
            w = vals[nrow * e: nrow * e + nrow].reshape(-1)
        if WHAT == "custom":
            data = points_of(c, k, dom, ent, q)
            n_pts = "".join(str(min(len(data[r.id]["w"]), 2)) for r in k.rules)
            x64 = x.astype(np.float64)
            exp, scale = k.evaluate([f[1] for f in ent], w.astype(np.complex128 if k.cx else np.float64), cst, x64, data)
            got = A - A0
            rel = {np.dtype(np.float64): 1e-10, np.dtype(np.float32): 3e-4}[real]
            tol = rel * (scale + scale.max(initial=0.0) * 1e-3) + rel * np.abs(A0)
            err = np.abs(got - exp)
            ok = bool(np.all(np.isfinite(got)) and np.all(err <= tol))
            global worst
            if ok and scale.max(initial=0) > 0:
                worst[real.name] = max(worst.get(real.name, 0), float((err / np.maximum(tol, 1e-300)).max()))
            static = "".join(str(min(len(r.weights), 2)) for r in k.rules)
            mon.check(ok, f"value/{t}/{'unf' if k.has_unf else 'plain'}{'/mixed' if k.mixed else ''}/q{min(len(k.rules), 2)}",
                      lambda: f"{c.dtype} {k.cell} points {n_pts} (static {static}): got {got[np.argmax(err - tol)]} expected {exp[np.argmax(err - tol)]} "
                      f"(magnitude {scale[np.argmax(err - tol)]:.2e}, {int((err > tol).sum())} of {size} entries wrong)", D, f"value/{cls}/{n_pts}/{static}")
        elif state == 2:
            mon.check(np.array_equal(A.view(np.uint8), A0.view(np.uint8)), f"empty/{t}", "the kernel of an empty entity changed the tensor", D, f"empty/{cls}")
        else:
            fo = getattr(old, name)
            fo.restype, fo.argtypes = None, [ctypes.c_void_p] * 7
            b2 = [Buf(a) for a in (A0, cst, x, lf, pm, w.astype(dt))]
            fo(b2[0].p, b2[5].p, b2[1].p, b2[2].p, b2[3].p if t != "cell" else None, b2[4].p if t != "cell" else None, None)
            exp = b2[0].get()
            for b in b2:
                b.free()
            mon.check(np.array_equal(A.view(np.uint8), exp.view(np.uint8)), f"full/{t}{'/unf' if k.has_unf else ''}",
                      lambda: f"differs from the kernel of the form compiler: {A[:4]} and {exp[:4]} (from {A0[:4]})", D, f"full/{cls}")
    W.free()


worst = {}


def main():
    n, batch = SPEC.get("n") or mon.scale(96 if WHAT == "custom" else 72, 1600), 24
    lib = shim()
    ctypes.CDLL(lib, mode=ctypes.RTLD_GLOBAL)
    done = 0
    while done < n:
        cases = []
        for _ in range(batch):
            with mon.case("kern"):
                cases.append(some_case(done))
            done += 1
        cases = [c for c in cases if c.ok]
        text = kgen.HEADER.replace("#include <ufcx.h>", "#include <stddef.h>\n#include <ufcx.h>")
        new = text + "".join(x[1] for c in cases for x in c.out.integrals)
        so, err = build(new, f"new{done}", [lib])
        if so is None:
            # one by one, to know which
            alive = []
            for j, c in enumerate(cases):
                o, err = build(text + "".join(x[1] for x in c.out.integrals), f"one{done}_{j}", [lib])
                if o is None:
                    mon.bad("compile", "the generated code does not compile: " + err[:600], dict(c.D, code="".join(x[1] for x in c.out.integrals)[:30000]))
                else:
                    alive.append((c, o))
        else:
            alive = [(c, so) for c in cases]
        old = None
        if WHAT != "custom":
            # what the kernel gives on standard entities: unfitted rules give nothing
            so2, err = build(kgen.HEADER + "".join(k.code([r for r in k.rules if not r.unf] if k.has_unf else None) for c in cases for k in c.kernels), f"old{done}")
            if so2 is None:
                raise HarnessError("reference kernels do not compile: " + err[:2000])
            old = ctypes.CDLL(so2, mode=os.RTLD_LOCAL | os.RTLD_NOW)
        for c, o in alive:
            with mon.case("kern"):
                run_case(c, ctypes.CDLL(o, mode=os.RTLD_LOCAL | os.RTLD_NOW), old)
    mon.count("generated forms", n)
    print({k: round(v, 4) for k, v in worst.items()})


try:
    main()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
mon.done()
