"""K06: the problem classes, over random histories of solves.

Linear and nonlinear problems with known matrices that depend on the packed coefficients
are solved again and again while the coefficients, the boundary values and the solution
change; every result is compared with the system as it is at that moment."""
import gc
import itertools
import sys
import types

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import dolfinx  # noqa
dolfinx.has_petsc4py = dolfinx.has_petsc = True
import dolfinx.fem  # noqa
import dolfinx.fem.forms as dforms  # noqa
import ufl  # noqa
from dolfinx.cpp.fem import _IntegralType as IT  # noqa
from dolfinx.fem.bcs import DirichletBC  # noqa
from dolfinx.fem.function import Function  # noqa
from petsc4py import PETSc  # noqa
from drivers.simplemesh import some_mesh  # noqa

rng = mon.nprng("k06")
plan = {}
compiled = []


class Boom(Exception):
    pass


def ffcx_jit(comm, form, form_compiler_options=None, jit_options=None):
    compiled.append((dict(form_compiler_options or {}), jit_options))
    if plan.get("raise", 0) == len(compiled):
        raise Boom
    ufcx = types.SimpleNamespace(num_coefficients=0, original_coefficient_positions=[], form=form)
    ffi = types.SimpleNamespace(cast=lambda t, x: x, addressof=lambda x: x)
    return [], ufcx, types.SimpleNamespace(ffi=ffi), ("", "")


jit = types.ModuleType("qugar.dolfinx.jit")
jit.ffcx_jit = ffcx_jit
sys.modules["qugar.dolfinx.jit"] = jit
Q = sys.modules["qugar.dolfinx"]
Q.jit = jit
from qugar.dolfinx import forms as F  # noqa
Q.CustomForm, Q.form_custom = F.CustomForm, F.form_custom
from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC  # noqa
from qugar.dolfinx import petsc as P  # noqa

D = type("D", (UnfittedDomainABC,), {m: (lambda self, *a, **k: None) for m in UnfittedDomainABC.__abstractmethods__})
serial = itertools.count()


class Space:
    """function space of n unknowns"""


class State:
    """the current values of everything a form depends on"""

    def __init__(self, n):
        self.n, self.c = n, rng.uniform(1, 2, 3)


class Values:
    """the (bi)linear form: known matrices times coefficients. Half of it comes from the
    coefficients of DOLFINx, half of it from those of the custom integrals."""

    def __init__(self, state, shape, fn=None):
        self.state, self.name = state, next(serial)
        self.K = rng.normal(size=(4,) + shape)
        if len(shape) == 2:
            self.K[0] += 30 * np.eye(*shape)
        self.cut = rng.uniform(1, 2)
        self.key = (IT.cell, 0)

    def std(self):
        return np.array(self.state.c)

    def packed(self):
        return {self.key: np.concatenate([self.std(), [self.cut, self.name]])}

    def current(self):
        return self.values(self.packed())

    def values(self, coeffs):
        if not isinstance(coeffs, dict) or list(coeffs) != [self.key]:
            mon.bad("coefficients/kind", f"assembled with coefficients {type(coeffs)}, not those of one form")
            raise Wrong
        c = coeffs[self.key]
        if c[-1] != self.name:
            mon.bad("coefficients/owner", "assembled with the coefficients of another form")
            raise Wrong
        x = getattr(self.state, "x", None)
        v = self.K[0] + c[0] * self.K[1] + c[1] * self.K[2] + c[3] * self.K[3]
        return v + c[2] * (x if v.ndim == 1 and x is not None else 0)


class Wrong(Exception):
    pass


class Packer:
    def __init__(self, form, domain, itg_data):
        self.form = form

    def vals(self):
        return self.form._cpp_object.vals

    def pack_coefficients(self):
        mon.count("packed")
        return self.vals().packed()

    def update_coefficients(self, old):
        mon.count("updated")
        v = self.vals()
        if not isinstance(old, dict) or list(old) != [v.key] or old[v.key][-1] != v.name:
            mon.bad("update/old", f"updated from {type(old)}, not the coefficients of the same form")
            raise Wrong
        return v.packed()


F.CustomCoeffsPacker = Packer


class FormCpp(dforms._FormCpp):
    def __init__(self, forms, *a):
        super().__init__(forms, *a)
        self.vals = forms[0].form.vals
        self.values, self.packed = self.vals.values, self.vals.packed
        self.dims = [V.n for V in self.spaces]
        self.function_spaces = self.spaces


F.form_cpp_class = lambda dtype: FormCpp

mesh = some_mesh(rng, "quadrilateral")
D(mesh)


def make_form(state, rank, vals=None):
    V = ufl.FunctionSpace(mesh.ufl_domain(), None)
    V.n, V._cpp_object = state.n, V
    V.mesh = types.SimpleNamespace(comm=mesh.comm)
    e = ufl.Coefficient(V) * ufl.TestFunction(V)
    V._cpp_object = V
    if rank > 1:
        e = e * ufl.TrialFunction(V)
    for t in e.terminals():
        t._cpp_object = t
    f = e * ufl.Measure("dx", domain=mesh.ufl_domain())
    f.vals = vals or Values(state, (state.n,) * rank)
    f.V = V
    return f


def some_bcs(n):
    bcs = []
    for _ in range(int(rng.choice([0, 1, 1, 2]))):
        d = np.sort(rng.permutation(n)[:int(rng.integers(1, max(2, n // 2)))])
        bcs.append(DirichletBC(d, rng.normal(size=len(d))))
    # a dof fixed twice: the last one wins in set, the first one in the lifting of the stand-in; keep them apart
    seen = set()
    for bc in bcs:
        k = [i for i, x in enumerate(bc.dofs) if x not in seen]
        bc.dofs, bc.g = bc.dofs[k], bc.g[k]
        seen |= set(bc.dofs.tolist())
    return bcs


def change(state):
    c = int(rng.integers(3))
    state.c[c] = rng.uniform(1, 2)


def options():
    fco = [None, {}, {"part": "full"}, {"epsilon": 1e-8}][int(rng.integers(4))]
    jo = [None, {"timeout": 5}][int(rng.integers(2))]
    return fco, jo


def check_options(fco, jo):
    for got, j in compiled:
        ok = j == jo and got.get("scalar_type") == PETSc.ScalarType and all(got.get(k) == v for k, v in (fco or {}).items() if k != "scalar_type")
        mon.check(ok, "options/compiler", f"compiled with {got} {j} instead of {fco} {jo}", cls=f"options/{jo}/{sorted(fco or {})}")


def linear_case():
    st = State(int(rng.integers(2, 9)))
    a, L = make_form(st, 2), make_form(st, 1)
    bcs = some_bcs(st.n)
    u = Function(a.V) if rng.random() < 0.5 else None
    opts = {"ksp_type": "preonly", "pc_type": str(rng.choice(["lu", "ilu"]))} if rng.random() < 0.6 else None
    fco, jo = options()
    compiled.clear()
    kw = {}
    if bcs or rng.random() < 0.5:
        kw["bcs"] = bcs
    if u is not None:
        kw["u"] = u
    p = P.LinearProblem(a, L, petsc_options=opts, form_compiler_options=fco, jit_options=jo, **kw)
    check_options(fco, jo)
    mon.check(len(compiled) == 2, "linear/compiled", f"{len(compiled)} forms compiled")
    got = {k[len(p._solver.prefix):]: v for k, v in p._solver.options.items()} if hasattr(p._solver, "options") else {}
    mon.check(got == (opts or {}), "linear/petsc-options", f"{got} instead of {opts}", cls=f"linear/petsc-options/{bool(opts)}")
    if u is not None:
        mon.check(p.u is u, "linear/u", "the given solution function is not used")
    for k in range(int(rng.integers(1, 5))):
        sol = p.solve()
        A, b = a.vals.current().copy(), L.vals.current().copy()
        for bc in bcs:
            A[bc.dofs] = np.eye(st.n)[bc.dofs]
            b[bc.dofs] = bc.g
        want = np.linalg.solve(A, b)
        mon.check(sol is p.u and np.allclose(sol.x.array, want, rtol=1e-8, atol=1e-9), "linear/solution",
                  f"solve {k}: {sol.x.array} instead of {want}", [bc.dofs.tolist() for bc in bcs],
                  cls=f"linear/solve{min(k, 3)}/bcs{len(bcs)}/u{u is not None}")
        mon.check(sol.x.scattered >= k + 1, "linear/scatter", "ghost values of the solution not updated")
        for _ in range(int(rng.integers(0, 3))):
            change(st)
        for bc in bcs:
            if rng.random() < 0.4:
                bc.g = rng.normal(size=len(bc.dofs))


def nonlinear_case():
    st = State(int(rng.integers(2, 9)))
    st.x = rng.normal(size=st.n)
    res, jac = make_form(st, 1), make_form(st, 2)
    u = Function(res.V)
    bcs = some_bcs(st.n)
    fco, jo = options()
    compiled.clear()
    given = rng.random() < 0.6
    seen = []

    def derivative(f, w, du, *a):
        seen.append((f, w, du))
        return jac

    P.ufl.derivative = derivative
    kw = {"J": jac} if given else {}
    p = P.NonlinearProblem(res, u, bcs, form_compiler_options=fco, jit_options=jo, **kw)
    check_options(fco, jo)
    if not given:
        mon.check(len(seen) == 1 and seen[0][0] is res and seen[0][1] is u and seen[0][2].number() == 1, "nonlinear/derivative", f"{seen}")
    b, A = PETSc.Vec(np.zeros(st.n)), PETSc.Mat(np.zeros((st.n, st.n)))
    x = PETSc.Vec(st.x)
    ops = [str(rng.choice(["F", "F", "J"])) for _ in range(int(rng.integers(2, 9)))]
    for k, op in enumerate(ops):
        J = jac.vals.current().copy()
        if op == "F":
            p.F(x, b)
            want = res.vals.current().copy()
            for bc in bcs:
                want += J[:, bc.dofs] @ (bc.g - x.v[bc.dofs])
            for bc in bcs:
                want[bc.dofs] = x.v[bc.dofs] - bc.g
            mon.check(np.allclose(b.v, want, rtol=1e-9, atol=1e-9), "nonlinear/residual", f"{ops[:k + 1]}: {b.v} instead of {want}",
                      cls=f"nonlinear/F/{min(ops[:k].count('F'), 2)}/{min(ops[:k].count('J'), 2)}/bcs{len(bcs)}")
        else:
            p.J(x, A)
            for bc in bcs:
                J[bc.dofs, :] = 0
                J[:, bc.dofs] = 0
                J[bc.dofs, bc.dofs] = 1
            mon.check(A.assembled and np.allclose(A.m, J, rtol=1e-9, atol=1e-9), "nonlinear/jacobian", f"{ops[:k + 1]}",
                      cls=f"nonlinear/J/{min(ops[:k].count('F'), 2)}/{min(ops[:k].count('J'), 2)}/bcs{len(bcs)}")
        st.x[...] = st.x + rng.normal(size=st.n) * (rng.random() < 0.8)
        for _ in range(int(rng.integers(0, 3))):
            change(st)


def failing_case():
    """a problem that cannot be compiled: the error arrives, and nothing else is raised later"""
    st = State(3)
    caught = []
    old, sys.unraisablehook = sys.unraisablehook, lambda x: caught.append(x.exc_value)
    try:
        for k in (1, 2):
            compiled.clear()
            plan["raise"] = k
            try:
                P.LinearProblem(make_form(st, 2), make_form(st, 1))
                mon.bad("failing/swallowed", "the error of the compiler did not reach the caller")
            except Boom:
                pass
            gc.collect()
            mon.check(not caught, "failing/destructor", f"{caught}", cls=f"failing/{k}")
    finally:
        sys.unraisablehook = old
        plan.clear()


def lists_case():
    """coefficients of (nested) lists of forms"""
    st = State(2)
    made = []

    def tree(depth):
        if depth == 0 or rng.random() < 0.4:
            made.append(F.form_custom(make_form(st, 1)))
            return made[-1]
        return [tree(depth - 1) for _ in range(int(rng.integers(0, 4)))]

    t = tree(3)

    def agree(c, f):
        if isinstance(f, list):
            return isinstance(c, list) and len(c) == len(f) and all(agree(x, y) for x, y in zip(c, f))
        v = f._cpp_object.vals
        return isinstance(c, dict) and list(c) == [v.key] and np.array_equal(c[v.key], v.packed()[v.key])

    coeffs = P._pack_coefficients(t)
    shape = min(len(made), 4)
    mon.check(agree(coeffs, t), "lists/packed", "", cls=f"lists/packed/{shape}/{type(t).__name__}")
    for _ in range(2):
        change(st)
        coeffs = P._update_coefficients(t, coeffs)
        mon.check(agree(coeffs, t), "lists/updated", "", cls=f"lists/updated/{shape}/{type(t).__name__}")


for n in range(mon.scale(400, 6000)):
    for fn in (linear_case, nonlinear_case):
        with mon.case(fn.__name__, data=n):
            try:
                fn()
            except Wrong:
                pass
    if hasattr(P, "_pack_coefficients") and hasattr(P, "_update_coefficients"):
        with mon.case("lists", data=n):
            try:
                lists_case()
            except Wrong:
                pass
for n in range(20):
    with mon.case("failing"):
        failing_case()
mon.done()
