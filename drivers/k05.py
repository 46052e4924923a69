"""K05: forms handed to the compiler and the unfitted-boundary measure.

Random forms go through form_custom with a recording compiler: what it received, what the
C++ form was built from and what is left of the caller's objects are compared with the
forms as they were written. Normals and area changes are evaluated numerically and
compared with tangents pushed forward by the Jacobian."""
import copy
import importlib.util
import sys
import types

import numpy as np

from drivers.mon import REPO, Monitor, use_stubs

mon = Monitor()
use_stubs()
import basix.ufl  # noqa
import dolfinx  # noqa
import dolfinx.fem  # noqa
import dolfinx.fem.assemble as assemble_mod  # noqa
import dolfinx.mesh  # noqa
import ufl  # noqa
from dolfinx.cpp.fem import _IntegralType as IT  # noqa
from mpi4py import MPI  # noqa
from drivers import meshes  # noqa
from drivers.simplemesh import some_mesh  # noqa

ufl_scalar = assemble_mod.assemble_scalar
rng = mon.nprng("k05")
I32 = np.int32


# ------------------------------------------------------------------ a recording compiler
class Boom(Exception):
    pass


calls = []
plan = {}


def snap(form):
    return [(i.integral_type(), i.ufl_domain(), i.subdomain_id(), i.integrand(), dict(i.metadata()),
             i.subdomain_data()) for i in form.integrals()]


def ffcx_jit(comm, form, form_compiler_options=None, jit_options=None):
    n = len(form.coefficients())
    pos = sorted(rng.choice(n, int(rng.integers(0, n + 1)), replace=False).tolist()) if n else []
    call = dict(form=form, snap=snap(form), fco=dict(form_compiler_options or {}), jit=jit_options, pos=pos, comm=comm)
    call["sd"] = form.subdomain_data()
    calls.append(call)
    if plan.get("raise"):
        raise Boom
    ufcx = types.SimpleNamespace(num_coefficients=len(pos), original_coefficient_positions=pos)
    ffi = types.SimpleNamespace(cast=lambda t, x: x, addressof=lambda x: ("address", id(x)))
    mod = types.SimpleNamespace(ffi=ffi)
    call["ret"] = (["itg data", len(calls)], ufcx, mod, ("decl", "impl"))
    return call["ret"]


jit = types.ModuleType("qugar.dolfinx.jit")
jit.ffcx_jit = ffcx_jit
sys.modules["qugar.dolfinx.jit"] = jit
# the package itself, as a user imports it
init = REPO + "/python/qugar/dolfinx/__init__.py"
spec = importlib.util.spec_from_file_location("qugar.dolfinx", init, submodule_search_locations=[REPO + "/python/qugar/dolfinx"])
Q = importlib.util.module_from_spec(spec)
sys.modules["qugar.dolfinx"] = Q
sys.modules["qugar"].dolfinx = Q
import qugar.utils  # noqa
qugar.utils.has_PETSc = False
spec.loader.exec_module(Q)
Q.jit = jit
from qugar.dolfinx import CustomForm, ds_bdry_unf, form_custom, mapped_normal  # noqa
from qugar.dolfinx import forms as forms_mod  # noqa
from qugar.mesh.mesh_facets import MeshFacets  # noqa
from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC  # noqa


class Packer:
    made = []

    def __init__(self, form, domain, itg_data):
        self.form, self.domain, self.itg_data = form, domain, itg_data
        Packer.made.append(self)

    def pack_coefficients(self):
        return ("packed", id(self))

    def update_coefficients(self, old):
        return ("updated", id(self), old)


if hasattr(forms_mod, "CustomCoeffsPacker"):
    forms_mod.CustomCoeffsPacker = Packer


class Domain(UnfittedDomainABC):
    def __init__(self, mesh):
        super().__init__(mesh)
        self.d = mesh.topology.dim
        self.ext = {}
        for p in meshes.facet_pairs(mesh).values():
            for f in p:
                c = int(rng.choice(4))
                if c < 3:  # the fourth one: not a facet for exterior integrals
                    self.ext[tuple(int(k) for k in f)] = c

    def _f(self, s, ext):
        if not ext:
            raise NotImplementedError
        f = np.array(sorted(k for k, v in self.ext.items() if v == s), dtype=I32).reshape(-1, 2)
        return MeshFacets(f[:, 0].copy(), f[:, 1].copy())

    def get_cut_facets(self, ext_integral=True):
        return self._f(0, ext_integral)

    def get_full_facets(self, ext_integral=True):
        return self._f(1, ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._f(2, ext_integral)

    get_cut_cells = get_full_cells = get_empty_cells = lambda self: np.zeros(0, I32)
    create_quad_custom_cells = create_quad_unf_boundaries = create_quad_custom_facets = None


# ------------------------------------------------------------------ random forms
class World:
    def __init__(self):
        self.kind = str(rng.choice(["triangle", "quadrilateral", "tetrahedron", "hexahedron"]))
        self.mesh = some_mesh(rng, self.kind)
        self.unf = Domain(self.mesh)
        self.dom = self.mesh.ufl_domain()
        e = types.SimpleNamespace(name="P1")
        self.V = []
        for k in range(2):
            V = ufl.FunctionSpace(self.dom, e)
            V._cpp_object = ("space", k, id(V))
            self.V.append(V)
        self.coefs = []
        for k in range(4):
            c = ufl.Coefficient(self.V[k % 2])
            c._cpp_object = ("coefficient", k)
            self.coefs.append(c)
        self.consts = [dolfinx.fem.Constant(self.mesh, float(k)) for k in range(2)]
        self.metas = [{}, {"quadrature_degree": 3}, {"quadrature_degree": 5, "quadrature_rule": "default"},
                      {"estimated": 1, "note": "x"}]
        self.rank = int(rng.integers(0, 3))
        self.data = {}
        for t in ("cell", "exterior_facet", "interior_facet", "vertex"):
            c = rng.random()
            if c < 0.3:
                self.data[t] = None
            elif c < 0.65:
                self.data[t] = dolfinx.mesh.MeshTags(self.mesh.topology, 0, np.zeros(0, I32), np.zeros(0, I32))
            else:
                ids = rng.permutation(9)[:int(rng.integers(1, 7))].tolist()
                self.data[t] = [(int(i), rng.integers(0, 9, 4).astype(I32)) for i in ids]
        self.measures = []
        for t in ("dx", "ds", "dS"):
            for k in range(2):
                full = {"dx": "cell", "ds": "exterior_facet", "dS": "interior_facet"}[t]
                data = self.data[full] if rng.random() < 0.7 else None
                self.measures.append(ufl.Measure(t, domain=self.dom, metadata=self.metas[int(rng.integers(4))], subdomain_data=data))
        self.measures += [ufl.dx, ufl.ds, ufl.ds, ufl.dS]

    def some_id(self, data):
        def one():
            if isinstance(data, list) and data and rng.random() < 0.8:
                i = data[int(rng.integers(len(data)))][0]
            else:
                i = int(rng.integers(0, 8))
            return [int, int, np.int32, np.int64][int(rng.integers(4))](i)
        c = rng.random()
        if c < 0.3:
            return "everywhere"
        if c < 0.36:
            return -1
        if c < 0.85:
            return one()
        ids = {one() for _ in range(int(rng.integers(1, 4)))}
        if rng.random() < 0.3:
            ids.add("everywhere")
        return tuple(ids)

    def integrand(self):
        e = self.coefs[int(rng.integers(4))]
        for _ in range(int(rng.integers(0, 3))):
            e = e * [self.consts[int(rng.integers(2))], self.coefs[int(rng.integers(4))], 2.0][int(rng.integers(3))]
        if self.rank > 0:
            e = e * ufl.TestFunction(self.V[0])
        if self.rank > 1:
            e = e * ufl.TrialFunction(self.V[1])
        return e

    def term(self):
        m = self.measures[int(rng.integers(len(self.measures)))]
        if rng.random() < 0.75:
            m = m(self.some_id(m.subdomain_data()))
        if rng.random() < 0.2:
            m = m(m.subdomain_id(), degree=int(rng.integers(1, 6)))
        return self.integrand() * m


def ext_everywhere(s):
    return s[0] == "exterior_facet" and (s[2] == "everywhere" or s[2] == -1)


def key(s, data=True):
    return (s[0], s[1].ufl_id(), type(s[2]).__name__ if isinstance(s[2], str) else "id", s[2], s[3]._key(),
            tuple(sorted((k, repr(v)) for k, v in s[4].items())), id(s[5]) if data and s[5] is not None else None)


def same(a, b):
    return sorted(map(key, a), key=repr) == sorted(map(key, b), key=repr)


def consistent(form):
    """the callers DOLFINx accepts: one subdomain data per integral type"""
    by = {}
    for s in snap(form):
        if s[5] is not None:
            by.setdefault(s[0], set()).add(id(s[5]))
    return all(len(v) == 1 for v in by.values())


def watch(things):
    return [snap(f) for f in things["forms"]], [dict(m.metadata()) for m in things["measures"]], \
        [dict(m) for m in things["metas"]], [(m.subdomain_id(), m.subdomain_data()) for m in things["measures"]], \
        [[(i, np.array(a)) for i, a in d] if isinstance(d, list) else d for d in things["datas"]]


def same_watch(a, b):
    if not all(same(x, y) and [key(s) for s in x] == [key(s) for s in y] for x, y in zip(a[0], b[0])):
        return False
    for x, y in zip(a[4], b[4]):
        if isinstance(x, list):
            if len(x) != len(y) or any(p[0] != q[0] or not np.array_equal(p[1], q[1]) for p, q in zip(x, y)):
                return False
    return a[1] == b[1] and a[2] == b[2] and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a[3], b[3]))


def check_one(w, form, before, call, res, dtype, fco, jit_options, emaps):
    got = call["snap"]
    keep = [s for s in before if not ext_everywhere(s)]
    mod = [s for s in before if ext_everywhere(s)]
    flagged = [s for s in got if s[4].get("ext_facet_everywhere")]
    rest = [s for s in got if not s[4].get("ext_facet_everywhere")]
    dbg = dict(before=[str(key(s)) for s in before], got=[str(key(s)) for s in got])
    mon.check(same(keep, rest), "form/other-integrals-untouched", "integrals that are not exterior and everywhere changed", dbg,
              cls=f"form/kept/{min(len(keep), 4)}/{w.kind}")
    strip = lambda s, flag: (s[3]._key(), tuple(sorted((k, repr(v)) for k, v in s[4].items() if not flag or k != "ext_facet_everywhere")))  # noqa
    mon.check(sorted(map(repr, (strip(s, 0) for s in mod))) == sorted(map(repr, (strip(s, 1) for s in flagged))),
              "form/everywhere-integrals-kept", "integrand or metadata of an everywhere integral changed", dbg,
              cls=f"form/everywhere/{min(len(mod), 4)}")
    used = [s[2] for s in keep if s[0] == "exterior_facet" and not isinstance(s[2], str)]
    for s in before:
        if s[0] == "exterior_facet" and isinstance(s[5], list) and not ext_everywhere(s):
            used += [i for i, _ in s[5]]
    ids = [s[2] for s in flagged]
    ok = all(not isinstance(i, str) and i >= 0 and all(i > u for u in used) for i in ids) and len(set(ids)) == len(ids)
    mon.check(ok, "form/fresh-ids", f"ids {ids} given to everywhere integrals, used {used}", dbg, cls=f"form/fresh/{bool(used)}/{min(len(ids), 3)}")
    mon.check(all(s[0] == "exterior_facet" for s in flagged), "form/flag-on-ext-facets", "", dbg)

    # the compiler options
    mon.check(call["fco"].get("scalar_type") == dtype and all(call["fco"].get(k) == v for k, v in (fco or {}).items() if k != "scalar_type"),
              "form/options", f"{call['fco']}")
    mon.check(call["jit"] == jit_options and call["comm"] is w.mesh.comm, "form/jit-options", f"{call['jit']}")

    # what the C++ form is built from
    f = res._cpp_object
    itg_data, ufcx, module, code = call["ret"]
    mon.check(np.dtype(f.dtype) == np.dtype(dtype), "form/class", f"{f.dtype} for {dtype}", cls=f"form/class/{np.dtype(dtype).name}")
    V = [w.V[k]._cpp_object for k in range(w.rank)]
    if (fco or {}).get("part") == "diagonal":
        V = V[:1]
    mon.check(list(f.spaces) == V, "form/spaces", f"{f.spaces} instead of {V}", cls=f"form/spaces/{len(V)}")
    cs = sorted({t for s in before for t in s[3].terminals() if isinstance(t, ufl.Coefficient)}, key=lambda c: c._count)
    mon.check(list(f.coefficients) == [cs[i]._cpp_object for i in call["pos"]], "form/coefficients", f"{f.coefficients}",
              cls=f"form/coefficients/{len(call['pos'])}/{len(cs)}")
    ks = sorted({t for s in before for t in s[3].terminals() if isinstance(t, ufl.Constant)}, key=lambda c: c._count)
    mon.check(list(f.constants) == [k._cpp_object for k in ks], "form/constants", f"{f.constants}")
    mon.check(f.mesh is w.dom.ufl_cargo() and list(f.entity_maps) == ["map of " + e.name for e in emaps or []] and
              list(f.forms) == [("address", id(ufcx))], "form/parts", "")
    mon.check(res._ufcx_form is ufcx and res._code == code and res._module is module, "form/handles", "")

    # integration domains
    sub = {IT(int(k)): v for k, v in f.subdomains.items()}
    for t, entries in sub.items():
        seq = [int(i) for i, _ in entries]
        mon.check(seq == sorted(seq), "form/domains-sorted", f"{t}: {seq} is not sorted (DOLFINx bisects it)", dbg, cls=f"form/sorted/{t.name}/{min(len(seq), 5)}")
    types_ = {"cell": IT.cell, "exterior_facet": IT.exterior_facet, "interior_facet": IT.interior_facet}
    allf = np.array(sorted(w.unf.ext), dtype=np.int64).reshape(-1, 2)
    for s in got:
        t = types_[s[0]]
        mine = [e for i, e in sub.get(t, []) if not isinstance(s[2], str) and int(i) == int(s[2])]
        if s[4].get("ext_facet_everywhere"):
            ok = len(mine) == 1 and not isinstance(mine[0], tuple) and np.array_equal(
                np.array(sorted(map(tuple, np.asarray(mine[0]).reshape(-1, 2).tolist()))).reshape(-1, 2), allf)
            mon.check(ok, "form/everywhere-domain", f"facets {mine} instead of {allf.tolist()}", dbg, cls=f"form/all-facets/{w.kind}/{len(allf) > 0}")
        elif not isinstance(s[2], str) and s[2] >= 0 and s[5] is not None:
            if isinstance(s[5], list):
                want = [e for i, e in s[5] if i == s[2]]
                ok = len(mine) == len(want) and all(np.array_equal(a, b) for a, b in zip(mine, want))
            else:
                ok = len(mine) >= 1 and all(isinstance(m, tuple) and m == ("entities", t, id(s[5]), int(s[2])) for m in mine)
            mon.check(ok, "form/domain", f"{s[0]} {s[2]}: {mine}", dbg, cls=f"form/domain/{s[0]}/{type(s[5]).__name__}")
    if Packer.made:
        p = [p for p in Packer.made if p.form is res]
        ok = len(p) == 1 and p[0].domain is w.unf and p[0].itg_data is itg_data
        if mon.check(ok, "form/packer", "the form does not pack with its own domain and integral data"):
            mon.check(res.pack_coefficients() == ("packed", id(p[0])) and res.update_coefficients("old") == ("updated", id(p[0]), "old"),
                      "form/pack", "")


class EMap:
    def __init__(self, name):
        self.name = name
        self._cpp_object = "map of " + name


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def forms_case():
    w = World()
    base = [w.term() for _ in range(int(rng.integers(2, 8)))]
    base = [b for b in base if not b.empty()]
    fs = []
    for _ in range(int(rng.integers(1, 5))):
        f = ufl.Form([])
        for _ in range(int(rng.integers(1, 6))):
            t = base[int(rng.integers(len(base)))] if base else w.term()
            c = rng.random()
            f = f + (t if c < 0.6 else 2.0 * t if c < 0.8 else -t)
        fs.append(f)
    fs = [f for f in fs if consistent(f) and not f.empty()]
    if not fs:
        return mon.count("inconsistent forms dropped")
    if rng.random() < 0.3:
        fs.insert(int(rng.integers(len(fs) + 1)), ufl.Form([]))
    things = dict(forms=fs + base, measures=w.measures, metas=w.metas, datas=list(w.data.values()))
    dtype = [np.float64, np.float32, np.complex128][int(rng.integers(3))]
    fco = [None, {}, {"part": "full"}, {"part": "diagonal"}, {"epsilon": 1e-9}][int(rng.integers(5))]
    if w.rank == 0 and fco and fco.get("part") == "diagonal":
        fco = None
    jo = [None, {"timeout": 3}][int(rng.integers(2))]
    emaps = [None, [EMap("a"), EMap("b")]][int(rng.random() < 0.2)]
    for rnd in range(2):  # twice: the second time must see the same form
        fail = rnd == 0 and rng.random() < 0.25
        if len(fs) == 1 or rng.random() < 0.5:
            arg = fs[int(rng.integers(len(fs)))]
            want = [arg]
        else:
            want = fs
            arg = list(fs)
            c = rng.random()
            if c < 0.3 and len(arg) > 1:
                k = int(rng.integers(1, len(arg)))
                arg = [arg[:k], arg[k:]]
            elif c < 0.45:
                arg = [arg]
            elif c < 0.6:
                arg = tuple(arg)
        before = watch(things)
        snaps = [snap(f) for f in want]
        calls.clear()
        Packer.made.clear()
        plan["raise"] = fail
        if fail and all(f.empty() for f in want):
            continue
        if fail:
            try:
                form_custom(arg, dtype=dtype, form_compiler_options=copy.copy(fco), jit_options=jo, entity_maps=emaps)
                mon.bad("form/compiler-error-swallowed", "the error of the compiler did not reach the caller")
            except Boom:
                mon.check(same_watch(before, watch(things)), "form/unchanged-after-error",
                          "a failed compilation left the caller's form changed", [str(key(s)) for s in snaps[0]])
            continue
        res = form_custom(arg, dtype=dtype, form_compiler_options=copy.copy(fco), jit_options=jo, entity_maps=emaps)
        mon.check(same_watch(before, watch(things)), "form/unchanged", "compiling a form changed the caller's objects",
                  [str(key(s)) for s in snaps[0]], cls=f"form/unchanged/{rnd}")
        out = flat(res)
        one = isinstance(arg, ufl.Form)
        mon.check(one == (not isinstance(res, (list, tuple))), "form/shape", f"{type(res)} for {type(arg)}", cls=f"form/shape/{type(arg).__name__}")
        if not mon.check(len(out) == len(want), "form/list", f"{len(out)} forms for {len(want)}", cls=f"form/list/{min(len(want), 4)}"):
            continue
        todo = list(calls)
        for f, s, r in zip(want, snaps, out):
            if not s:
                mon.check(r is None, "form/empty", f"{r} for an empty form")
                continue
            if not mon.check(isinstance(r, CustomForm), "form/type", f"{type(r)}"):
                continue
            c = [c for c in todo if r._cpp_object.forms == [("address", id(c["ret"][1]))]]
            if mon.check(len(c) == 1, "form/compiled-once", f"{len(c)} compilations"):
                todo.remove(c[0])
                check_one(w, f, s, c[0], r, dtype, fco, jo, emaps)
        mon.check(not todo, "form/compiled-too-often", f"{len(todo)} more compilations than forms")


# ------------------------------------------------------------------ the boundary measure
def bmesh():
    kind = str(rng.choice(["triangle", "quadrilateral", "tetrahedron", "hexahedron"]))
    if kind in ("triangle", "quadrilateral") and rng.random() < 0.4:
        n = 3 if kind == "triangle" else 4
        pts = rng.random((n, 3))
        e = basix.ufl.element("Lagrange", kind, 1, shape=(3,))
        return kind + "-surface", dolfinx.mesh.create_mesh(MPI.COMM_WORLD, np.arange(n, dtype=np.int64).reshape(1, n), e, pts)
    return kind, some_mesh(rng, kind)


def matrices(mesh):
    t = mesh.topology.dim
    g = int(mesh.ufl_domain().geometric_dimension())
    while True:
        J = rng.normal(size=(g, t)) * 10.0 ** rng.integers(-2, 3)
        if np.linalg.cond(J) < 30:
            break
    N = rng.normal(size=t)
    N /= np.linalg.norm(N)
    return J, N


def evaluate(e, mesh, J, N, more=()):
    env = dict(more)
    env[ufl.Jacobian(mesh.ufl_domain())] = J
    for t in e.terminals():
        if type(t).__name__ == "ParamNormal" or (isinstance(t, ufl.Constant) and t.ufl_shape):
            env[t] = N
        elif isinstance(t, ufl.JacobianDeterminant):
            env[t] = np.linalg.det(J)
        if t not in env and t.ufl_domain() is not None:
            mon.bad("integrand/foreign", f"the integrand holds {t!r} of {t.ufl_domain()!r}, integrating over {mesh.ufl_domain()!r}")
            return np.nan
    return e.evaluate(env)


def area_ratio(J, N):
    """how much larger a piece of boundary with reference normal N becomes under J, over how
    much larger a piece of the interior becomes"""
    t = null(N)
    T = J @ t
    return np.sqrt(np.linalg.det(T.T @ T)) / np.sqrt(np.linalg.det(J.T @ J))


def null(N):
    q, _ = np.linalg.qr(np.column_stack([N, np.eye(len(N))]))
    return q[:, 1:len(N)]


def normal_case():
    kind, mesh = bmesh()
    arg = mesh
    for normalize in (True, False):
        e = mapped_normal(arg, normalize) if rng.random() < 0.5 else mapped_normal(arg, normalize=normalize)
        for _ in range(3):
            J, N = matrices(mesh)
            n = np.asarray(evaluate(e, mesh, J, N))
            g = J.shape[0]
            if not mon.check(n.shape == (g,), "normal/shape", f"{n.shape} in dimension {g}"):
                continue
            T = J @ null(N)
            size = np.linalg.norm(n)
            mon.check(np.abs(T.T @ n).max(initial=0) <= 1e-9 * size * np.linalg.norm(J), "normal/orthogonal",
                      f"not orthogonal to the mapped boundary: {T.T @ n}", cls=f"normal/orthogonal/{kind}")
            # in the surface of the cell and outwards
            r = n - J @ np.linalg.lstsq(J, n, rcond=None)[0]
            mon.check(np.linalg.norm(r) <= 1e-9 * size, "normal/tangent-to-cell", f"{r}", cls=f"normal/in-cell/{kind}")
            mon.check(n @ (J @ N) > 0, "normal/outward", f"{n @ (J @ N)}", cls=f"normal/outward/{kind}")
            want = 1.0 if normalize else area_ratio(J, N)
            mon.check(abs(size - want) <= 1e-9 * want, "normal/length", f"{size} instead of {want} (normalize {normalize})",
                      cls=f"normal/length/{kind}/{normalize}")
    e = mapped_normal(arg)
    J, N = matrices(mesh)
    mon.check(abs(np.linalg.norm(evaluate(e, mesh, J, N)) - 1) < 1e-9, "normal/default", "not normalized by default")


class Model:
    """what a measure stands for"""

    def __init__(self, mesh, sid, meta, data):
        self.mesh, self.sid, self.meta, self.data = mesh, sid, dict(meta), data


RESERVED = ("quadrature_points", "quadrature_weights", "quadrature_rule", "custom_unfitted_boundary")


def bid():
    c = rng.random()
    if c < 0.25:
        return "everywhere"
    if c < 0.7:
        return int(rng.integers(0, 6))
    ids = rng.permutation(6)[:int(rng.integers(1, 4))].tolist()
    return tuple(ids) + (("everywhere",) if rng.random() < 0.2 else ())


def check_measure(what, ds, m, kind):
    mesh = m.mesh
    f = ufl.Coefficient(ufl.FunctionSpace(mesh.ufl_domain(), None))
    mon.check(isinstance(ds, ds_bdry_unf), f"measure/{what}/class", f"{type(ds)}")
    for form, scalar in ((f * ds, True), (3.0 * ds, False)):
        ids = m.sid if isinstance(m.sid, tuple) else (m.sid,)
        its = form.integrals()
        mon.check(sorted(map(str, (i.subdomain_id() for i in its))) == sorted(map(str, ids)), f"measure/{what}/ids",
                  f"{[i.subdomain_id() for i in its]} for {ids}", cls=f"measure/{what}/ids/{len(ids)}")
        for i in its:
            J, N = matrices(mesh)
            v = rng.uniform(1, 2)
            got = evaluate(i.integrand(), mesh, J, N, {f: v})
            want = (v if scalar else 3.0) * area_ratio(J, N)
            mon.check(abs(got - want) <= 1e-9 * abs(want), f"measure/{what}/area",
                      f"integrand scaled by {got / (v if scalar else 3.0)}, area change {area_ratio(J, N)}, id {m.sid}",
                      cls=f"measure/{what}/area/{kind}/{type(m.sid).__name__}")
            md = i.metadata()
            ok = md.get("custom_unfitted_boundary") is True and md.get("quadrature_rule") == "custom"
            p, wt = np.asarray(md.get("quadrature_points")), np.asarray(md.get("quadrature_weights"))
            ok = ok and p.shape == (len(wt), mesh.topology.dim) and len(wt) > 1
            mon.check(ok, f"measure/{what}/flags", f"{md}", cls=f"measure/{what}/flags/{kind}")
            rest = {k: v for k, v in md.items() if k not in RESERVED}
            wantmd = {k: v for k, v in m.meta.items() if k not in RESERVED}
            mon.check(rest == wantmd, f"measure/{what}/metadata", f"{rest} instead of {wantmd}", cls=f"measure/{what}/metadata/{len(rest)}")
            mon.check(i.integral_type() == "cell" and i.ufl_domain() == mesh.ufl_domain() and i.subdomain_data() is m.data,
                      f"measure/{what}/integral", f"{i.integral_type()} {i.subdomain_data()}")
    t = str(ds)
    mon.check(t.startswith("ds_bdry_unf"), f"measure/{what}/str", t)
    repr(ds)


def measure_case():
    kind, mesh = bmesh()
    other_kind, other = bmesh()
    tags = [None, types.SimpleNamespace(name="tags a"), [(1, np.zeros(2, I32))]]
    metas = [None, {}, {"quadrature_degree": 4}, {"quadrature_degree": 2, "note": "n"}, {"quadrature_rule": "vertex", "custom_unfitted_boundary": False}]
    kw = {}
    sid = "everywhere"
    if rng.random() < 0.6:
        sid = kw["subdomain_id"] = bid()
    meta = metas[int(rng.integers(5))]
    copy_meta = copy.deepcopy(meta)
    if meta is not None:
        kw["metadata"] = meta
    data = tags[int(rng.integers(3))]
    if data is not None:
        kw["subdomain_data"] = data
    m = Model(mesh, sid, meta or {}, data)
    if rng.random() < 0.4:
        kw["degree"] = m.meta["quadrature_degree"] = int(rng.integers(0, 9))
    ds = ds_bdry_unf(mesh, **kw)
    mon.check(meta == copy_meta, "measure/metadata-untouched", f"{meta}")
    check_measure("new", ds, m, kind)
    live = [(ds, copy.copy(m), kind)]
    hist = ["new"]
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(len(live)))
        ds, m, kind = live[k]
        m = Model(m.mesh, m.sid, m.meta, m.data)
        op = str(rng.choice(["id", "meta", "degree", "call", "domain", "data", "reconstruct", "copy", "both"]))
        hist.append(op)
        if op == "id":
            m.sid = bid()
            ds = ds(m.sid)
        elif op == "meta":
            md = {"quadrature_degree": int(rng.integers(0, 9))}
            m.meta = md
            ds = ds(metadata=md)
            mon.check(list(md) == ["quadrature_degree"], "measure/metadata-untouched", f"{md}")
        elif op == "degree":
            m.meta = {"quadrature_degree": int(rng.integers(0, 9))}
            ds = ds(degree=m.meta["quadrature_degree"])
        elif op == "both":
            m.sid = bid()
            m.meta = {"quadrature_degree": int(rng.integers(0, 9))}
            ds = ds(m.sid, degree=m.meta["quadrature_degree"])
        elif op == "call":
            m.sid = "everywhere"
            ds = ds()
        elif op == "domain":
            m.mesh, kind = (other, other_kind) if m.mesh is mesh else (mesh, live[0][2])
            ds = ds(domain=m.mesh)
        elif op == "data":
            m.data = tags[1 + int(rng.integers(2))]
            ds = ds(subdomain_data=m.data)
        elif op == "reconstruct":
            a = {}
            if rng.random() < 0.5:
                a["subdomain_id"] = m.sid = bid()
            if rng.random() < 0.5:
                a["metadata"] = m.meta = [{"quadrature_degree": 7}, {"quadrature_degree": 0}, {}][int(rng.integers(3))]
            if rng.random() < 0.3:
                a["integral_type"] = "cell"
            ds = ds.reconstruct(**a)
        else:
            ds = copy.copy(ds)
        check_measure(op, ds, m, kind)
        live.append((ds, m, kind))
    # the ones it was made from are as they were
    for d, m, k in live:
        check_measure("old", d, m, k)
    # one normal per domain, else every use compiles anew
    f = 2.0
    for a, ma, _ in live:
        for b, mb, _ in live:
            if ma.mesh is mb.mesh and ma.mesh is mesh and all(h != "domain" for h in hist):
                ia, ib = (f * a).integrals()[0], (f * b).integrals()[0]
                mon.check(ia.integrand() == ib.integrand(), "measure/same-normal", f"history {hist}", cls="measure/same-normal")
            same_ = (ma.mesh.ufl_domain() == mb.mesh.ufl_domain() and ma.sid == mb.sid and ma.data is mb.data and
                     {k: v for k, v in ma.meta.items() if k not in RESERVED} == {k: v for k, v in mb.meta.items() if k not in RESERVED})
            simple = all(isinstance(v, (int, str)) for v in list(ma.meta.values()) + list(mb.meta.values()))
            if simple:
                mon.check((a == b) == same_ and (a != b) == (not same_), "measure/equality", f"{a!r} {b!r}: {a == b}, models equal: {same_}",
                          cls=f"measure/equality/{same_}")
            mon.check(not (a == b) or hash(a) == hash(b), "measure/hash", f"equal measures with different hashes, {hist}")
        c = copy.copy(a)
        mon.check(c == a and hash(c) == hash(a) and len({a, c}) == 1, "measure/copy-equal", "")
        if isinstance(ma.sid, tuple) and all(isinstance(v, (int, str)) for v in ma.meta.values()):
            c = a.reconstruct(subdomain_id=tuple(list(ma.sid)))
            mon.check(c == a and hash(c) == hash(a), "measure/hash-ids", "equal subdomain ids, different measures or hashes")
        plain = ufl.Measure("dx", domain=ma.mesh.ufl_domain(), subdomain_id=a.subdomain_id(), metadata=a.metadata(), subdomain_data=ma.data)
        mon.check(not (a == plain) and not (plain == a) and a != plain and plain != a, "measure/differs-from-dx",
                  "equal to a plain cell measure")
    # sums of measures
    ds, m, kind = live[-1]
    g = ufl.Coefficient(ufl.FunctionSpace(m.mesh.ufl_domain(), None))
    dx = ufl.Measure("dx", domain=m.mesh.ufl_domain(), metadata={"quadrature_degree": 2})
    for both in (dx + ds, ds + dx):
        its = (g * both).integrals()
        flags = [i for i in its if i.metadata().get("custom_unfitted_boundary")]
        rest = [i for i in its if not i.metadata().get("custom_unfitted_boundary")]
        n = len(m.sid) if isinstance(m.sid, tuple) else 1
        J, N = matrices(m.mesh)
        ok = len(flags) == n and len(rest) == 1 and rest[0].integrand() == g and all(
            abs(evaluate(i.integrand(), m.mesh, J, N, {g: 1.5}) - 1.5 * area_ratio(J, N)) < 1e-8 * area_ratio(J, N) for i in flags)
        mon.check(ok, "measure/sum", f"{len(flags)} {len(rest)}", cls=f"measure/sum/{n}")


# ------------------------------------------------------------------ the DOLFINx patch
class FakeForm:
    def __init__(self):
        self._cpp_object = self

    def packed_constants(self):
        return "own constants"

    def packed(self):
        return "own coefficients"

    def scalar(self, constants, coeffs):
        return (constants, coeffs)


def patch_case():
    from qugar.dolfinx import _dolfinx_patches as P
    try:
        for version, applies in (("0.10.0", True), ("0.10.0.post5", True), ("0.10.3", True), ("0.9.0", False), ("0.11.0", False), ("0.100.0", False)):
            assemble_mod.assemble_scalar = dolfinx.fem.assemble_scalar = ufl_scalar
            dolfinx.__version__ = version
            for _ in range(int(rng.integers(1, 4))):
                P.apply_patches()
            for fn in (assemble_mod.assemble_scalar, dolfinx.fem.assemble_scalar):
                mon.check((fn is ufl_scalar) != applies, "patch/versions", f"{version}", cls=f"patch/{version}")
                if applies:
                    for k in (None, "k", {}):
                        for c in (None, "c", {}):
                            want = ("own constants" if k is None else k, "own coefficients" if c is None else c)
                            got = fn(FakeForm(), k, c)
                            mon.check(got == want, "patch/result", f"{got} instead of {want}", cls=f"patch/result/{k}/{c}")
                            mon.check(fn(FakeForm(), coeffs=c, constants=k) == want, "patch/keywords", "")
                    mon.check(fn(FakeForm()) == ("own constants", "own coefficients"), "patch/defaults", "")
    finally:
        dolfinx.__version__ = "0.10.0"
    # and it is in force once the package was imported
    assemble_mod.assemble_scalar = dolfinx.fem.assemble_scalar = patched


patched = dolfinx.fem.assemble_scalar
mon.check(patched(FakeForm(), "k", "c") == ("k", "c") and assemble_mod.assemble_scalar(FakeForm(), "k", "c") == ("k", "c"),
          "patch/applied-on-import", "dolfinx.fem.assemble_scalar still replaces the coefficients")
for n in range(mon.scale(1200, 15000)):
    with mon.case("forms", data=n):
        forms_case()
for n in range(mon.scale(200, 2500)):
    with mon.case("normal", data=n):
        normal_case()
    with mon.case("measure", data=n):
        measure_case()
with mon.case("patch"):
    patch_case()
mon.done()
