"""I01: the functions created by qugar.impl are the announced ones.

Oracle: geometry stated here once more (which side of the object a point lies on, points
of the object itself) or the closed formula, never the calls made to the extension."""
import sys

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import qugar_cpp_impl_stub as ext  # noqa

sys.modules["qugar.cpp"] = ext
sys.modules["qugar"].cpp = ext
import qugar.impl as impl  # noqa

rng = mon.nprng("i01")
U = rng.uniform


def pick(*a):
    return a[int(rng.integers(len(a)))]


def unit(v):
    return v / np.linalg.norm(v)


def prec(v, as_list=False):
    """the argument in a precision (or kind) users may have it in, and the exact value of
    it in double"""
    k = pick("f8", "f4", "strided", *(["list"] if as_list else []))
    v = np.asarray(v, dtype=float)
    if k == "f4":
        w = v.astype(np.float32)
        return w, w.astype(float)
    if k == "list":
        return [float(x) for x in v], v
    if k == "strided":
        w = np.zeros(2 * len(v))
        w[::2] = v
        return w[::2], v
    return v.copy(), v


def scal(v):
    k = pick(float, np.float32, np.float64)
    w = k(v)
    return w, float(w)


def direction(dim):
    """any direction, often along the axes or the coordinate planes"""
    while True:
        v = rng.normal(size=dim) if rng.random() < 0.5 else rng.integers(-2, 3, dim) * 1.0
        if np.any(v):
            return v


def affine(dim, orth=False):
    a = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    a = a @ np.diag(U(0.4, 1.6, dim))
    b = U(-0.5, 0.5, dim)
    return (ext.AffineTransf_2D if dim == 2 else ext.AffineTransf_3D)(a, b), a, b


def back(a, b, x):
    return np.linalg.solve(a, (x - b).T).T


class Want:
    """what the object is: side(x) < 0 inside, > 0 outside; on(n): points of it;
    value(x): the exact formula, if that is announced; rep: the representation asked for"""
    def __init__(self, dim, side=None, on=None, value=None, rep=None):
        self.dim, self.side, self.on, self.value, self.rep = dim, side, on, value, rep


def points(dim, n=25):
    return U(-1.6, 1.6, (n, dim))


def hold(args):
    return [(a, np.array(a, copy=True), type(a)) for a in args if isinstance(a, (np.ndarray, list))]


def kept(h):
    return all(type(a) is t and np.array_equal(np.asarray(a), c) and
               (not isinstance(a, np.ndarray) or a.dtype == c.dtype) for a, c, t in h)


def verify(f, w, key, data):
    chk = lambda ok, what, msg: mon.check(ok, f"{key}/{what}", msg, data)  # noqa
    if not chk(isinstance(f, impl.ImplicitFunc), "kind", f"a {type(f).__name__} comes back"):
        return
    if not chk(f.dim == w.dim, "dim", f"dimension {f.dim} instead of {w.dim}"):
        return
    if w.rep is not None:
        chk(f.cpp_object.bzr == w.rep, "representation", f"Bezier: {f.cpp_object.bzr}, asked for {w.rep}")
    p = points(w.dim)
    form = pick("f8", "f4", "fortran", "rows")
    arg = {"f8": lambda: p.copy(), "f4": lambda: p.astype(np.float32), "fortran": lambda: np.asfortranarray(p),
           "rows": lambda: np.repeat(p, 2, axis=0)[::2]}[form]()
    x = np.array(arg, dtype=float)
    was = arg.copy()
    v, g = f.eval(arg), f.grad(arg)
    chk(np.array_equal(arg, was) and arg.dtype == was.dtype, "points", "the given points are modified")
    ty = np.float32 if form == "f4" else np.float64
    tol = 3e-5 if form == "f4" else 1e-9
    if not chk(v.shape == (len(p),) and v.dtype == ty, "values", f"values of shape {v.shape} and type {v.dtype} for {form}"):
        return
    if not chk(g.shape == p.shape and g.dtype == ty, "gradients", f"gradients of shape {g.shape} and type {g.dtype} for {form}"):
        return
    # the same array with other points in it, the function asked again, and in the other order
    first = v.copy(), g.copy()
    arg[:] = arg[::-1].copy()
    v2, g2 = (f.eval(arg), f.grad(arg)) if rng.random() < 0.5 else (f.grad(arg), f.eval(arg))[::-1]
    chk(np.allclose(v2[::-1], first[0], rtol=tol, atol=tol), "again", "the values do not follow the points of the array")
    chk(np.allclose(g2[::-1], first[1], rtol=tol, atol=tol), "again", "the gradients do not follow the points of the array")
    chk(np.array_equal(v, first[0]) and np.array_equal(g, first[1]), "again", "an answer given before is overwritten")
    v, g = v.astype(float), g.astype(float)
    if w.value is not None:
        e = w.value(x)
        chk(np.allclose(v, e, rtol=tol, atol=tol * 10), "value", f"{v[:3]} at {x[:3].tolist()} instead of {e[:3]}")
    if w.side is not None:
        s = w.side(x)
        m = np.abs(s) > 1e-3
        chk(np.all(np.sign(v[m]) == np.sign(s[m])), "side", "a point inside and outside swapped or the object displaced: "
            f"{x[m][np.sign(v[m]) != np.sign(s[m])][:2].tolist()}")
    if w.on is not None:
        z = f.eval(w.on(12))
        chk(np.abs(z).max() < 1e-8, "surface", f"{np.abs(z).max():.3g} on the surface of the object")
    # the gradient is that of the values
    d = unit(rng.normal(size=w.dim))
    h = 1e-6
    q = x[:8]
    num = (f.eval(q + h * d) - f.eval(q - h * d)) / (2 * h)
    ana = g[:8] @ d
    curv = np.abs(f.eval(q + h * d) + f.eval(q - h * d) - 2 * f.eval(q)) / h
    ok = curv < 1e-3  # away from kinks
    sc = 1 + np.abs(num)
    chk(np.all(np.abs(num - ana)[ok] < (1e-3 if form == "f4" else 1e-4) * sc[ok]), "gradient",
        "the gradient is not that of the values")
    mon.count("points evaluated", len(p) + len(q) * 5)


def ball(dim):
    r, re = scal(U(0.4, 1.2))
    a, w = [r], np.zeros(dim)
    k = {}
    if rng.random() < 0.7:
        c, w = prec(U(-0.5, 0.5, dim))
        k["center"] = c
    rep = pick(True, False)
    k["use_bzr"] = rep

    def on(n):
        d = rng.normal(size=(n, dim))
        return w + re * d / np.linalg.norm(d, axis=1)[:, None]
    return a, k, Want(dim, lambda x: np.linalg.norm(x - w, axis=1) - re, on, rep=rep)


def ellip(dim):
    s, se = prec(U(0.4, 1.3, dim))
    k, o, B = {}, np.zeros(dim), np.eye(dim)
    if rng.random() < 0.7:
        o = U(-0.5, 0.5, dim)
        B = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
        k["ref_system"] = (ext.RefSystem_2D if dim == 2 else ext.RefSystem_3D)(o, B)
    rep = k["use_bzr"] = pick(True, False)

    def on(n):
        d = rng.normal(size=(n, dim))
        return o + (se * d / np.linalg.norm(d, axis=1)[:, None]) @ B
    return [s], k, Want(dim, lambda x: np.linalg.norm(((x - o) @ B.T) / se, axis=1) - 1, on, rep=rep)


def frame(ax):
    n = unit(ax)
    t = np.eye(3)[np.argmin(np.abs(n))]
    u = unit(np.cross(n, t))
    return n, u, np.cross(n, u)


def cylinder():
    r, re = scal(U(0.3, 1.0))
    o, oe = prec(U(-0.5, 0.5, 3))
    ax, e = None, np.array([0, 0, 1.0])
    if rng.random() < 0.7:
        ax, e = prec(direction(3))
    n, u, v = frame(e)
    rep = pick(True, False)

    def on(m):
        t = U(0, 6.3, m)[:, None]
        return oe + re * (np.cos(t) * u + np.sin(t) * v) + U(-1, 1, (m, 1)) * n
    return [r, o], dict(axis=ax, use_bzr=rep), Want(
        3, lambda x: np.linalg.norm(np.cross(x - oe, n), axis=1) - re, on, rep=rep)


def annulus():
    (ri, i), (ro, o) = scal(U(0.2, 0.5)), scal(U(0.7, 1.2))
    k, w = {}, np.zeros(2)
    if rng.random() < 0.7:
        k["center"], w = prec(U(-0.5, 0.5, 2))
    rep = k["use_bzr"] = pick(True, False)

    def side(x):
        d = np.linalg.norm(x - w, axis=1)
        return np.maximum(d - o, i - d)

    def on(n):
        t = U(0, 6.3, n)
        return w + (np.where(rng.random(n) < 0.5, i, o) * np.stack([np.cos(t), np.sin(t)])).T
    return [ri, ro], k, Want(2, side, on, rep=rep)


def torus():
    (R, Re), (r, re) = scal(U(0.6, 1.1)), scal(U(0.15, 0.45))
    k, w, e = {}, np.zeros(3), np.array([0, 0, 1.0])
    if rng.random() < 0.6:
        k["center"], w = prec(U(-0.4, 0.4, 3))
    if rng.random() < 0.6:
        k["axis"], e = prec(direction(3))
    n, u, v = frame(e)
    rep = k["use_bzr"] = pick(True, False)

    def side(x):
        h = (x - w) @ n
        q = np.linalg.norm(x - w - h[:, None] * n, axis=1)
        return np.hypot(q - Re, h) - re

    def on(m):
        a, b = U(0, 6.3, (2, m, 1))
        d = np.cos(a) * u + np.sin(a) * v
        return w + (Re + re * np.cos(b)) * d + re * np.sin(b) * n
    return [R, r], k, Want(3, side, on, rep=rep)


def constant():
    v, e = scal(U(-2, 2))
    dim = pick(2, 3)
    rep = pick(True, False)
    return [v, dim], dict(use_bzr=rep), Want(dim, value=lambda x: np.full(len(x), e), rep=rep)


def flat(dim):
    o, n, oe, ne = None, None, np.zeros(dim), np.eye(dim)[0]
    if rng.random() < 0.6:
        o, oe = prec(U(-0.7, 0.7, dim))
    if rng.random() < 0.6:
        n, ne = prec(direction(dim))
    rep = pick(True, False)

    def on(m):
        y = U(-1, 1, (m, dim))
        return y - ((y - oe) @ ne / (ne @ ne))[:, None] * ne
    return [o, n], dict(use_bzr=rep), Want(dim, lambda x: (x - oe) @ unit(ne), on, rep=rep)


def dimlin():
    dim = pick(2, 3)
    c, ce = prec(U(-1, 1, 2**dim), True)
    k, a, b = {}, np.eye(dim), np.zeros(dim)
    if rng.random() < 0.6:
        k["affine_trans"], a, b = affine(dim)

    def val(x):
        y = back(a, b, x)
        out = 0
        for i in range(2**dim):
            t = [y[:, d] if i >> d & 1 else 1 - y[:, d] for d in range(dim)]
            out = out + ce[i] * np.prod(t, axis=0)
        return out
    return [c], k, Want(dim, value=val)


def box():
    k, dim = {}, 2
    given = pick("dim", "none", "affine", "affine+dim")
    if given == "dim":
        dim = k["dim"] = pick(2, 3)
    a, b = np.eye(dim), np.zeros(dim)
    if given == "affine":
        k["affine_trans"], a, b = affine(2)
    elif given == "affine+dim":
        dim = k["dim"] = pick(2, 3)
        k["affine_trans"], a, b = affine(dim)

    def on(n):
        y = U(-1, 1, (n, dim))
        y[np.arange(n), rng.integers(dim, size=n)] = rng.choice([-1, 1], n)
        return y @ a.T + b
    return [], k, Want(dim, lambda x: np.abs(back(a, b, x)).max(axis=1) - 1, on)


S, C = (lambda t: np.sin(2 * np.pi * t)), (lambda t: np.cos(2 * np.pi * t))
FORMS = {
    "Schoen": lambda x, y, z: S(x) * C(y) + S(y) * C(z) + S(z) * C(x),
    "Schoen_IWP": lambda x, y, z: 2 * (C(x) * C(y) + C(y) * C(z) + C(z) * C(x)) - C(2 * x) - C(2 * y) - C(2 * z),
    "Schoen_FRD": lambda x, y, z: 4 * C(x) * C(y) * C(z) - C(2 * x) * C(2 * y) - C(2 * x) * C(2 * z) - C(2 * y) * C(2 * z),
    "Fischer_Koch_S": lambda x, y, z: C(2 * x) * S(y) * C(z) + C(x) * C(2 * y) * S(z) + S(x) * C(y) * C(2 * z),
    "Schwarz_Primitive": lambda x, y, z: C(x) + C(y) + C(z),
    "Schwarz_Diamond": lambda x, y, z: C(x) * C(y) * C(z) - S(x) * S(y) * S(z)}


def tpms(name):
    def gen():
        dim = pick(2, 3)
        m, me = prec(U(0.3, 2.5, dim), True)
        k, ze = {}, 0.0
        if dim == 2 and rng.random() < 0.7:
            z, ze = (0.0, 0.0) if rng.random() < 0.15 else scal(U(-1, 1))
            k["z"] = z
        g = FORMS[name]

        def val(x):
            t = x * me
            return g(t[:, 0], t[:, 1], t[:, 2] if dim == 3 else np.full(len(x), ze))
        return [m], k, Want(dim, value=val)
    return gen


FACT = dict(create_disk=lambda: ball(2), create_sphere=lambda: ball(3), create_ellipse=lambda: ellip(2),
            create_ellipsoid=lambda: ellip(3), create_cylinder=cylinder, create_annulus=annulus, create_torus=torus,
            create_constant=constant, create_plane=lambda: flat(3), create_line=lambda: flat(2),
            create_dim_linear=dimlin, create_box=box)
FACT.update({"create_" + n: tpms(n) for n in FORMS})


def create(name):
    a, k, w = FACT[name]()
    return getattr(impl, name)(*a, **k), w, a, k


def show(a, k):
    return {"args": [repr(x) for x in a], "kw": {n: repr(v) for n, v in k.items()}}


def one(name):
    a, k, w = FACT[name]()
    # (the documentation and the signature of disks disagree)
    dflt = k.get("use_bzr") is True and name != "create_disk" and rng.random() < 0.5
    if dflt:
        del k["use_bzr"]  # Bezier unless told otherwise
    opt = "+".join(sorted(n for n, v in k.items() if v is not None and n != "use_bzr"))
    key = f"{name}/{opt or 'plain'}/{w.dim}D"
    data = show(a, k)
    h = hold(a + list(k.values()))
    with mon.case(key, data):
        f = getattr(impl, name)(*a, **k)
        mon.check(kept(h), f"{key}/arguments", "an argument is modified", data)
        # the function does not follow what happens to the arguments later
        for arr, _, _ in h:
            if isinstance(arr, np.ndarray):
                arr += 0.37
            else:
                arr[:] = [x + 0.37 for x in arr]
        verify(f, w, key, data)
        mon.count("functions created")


def combined():
    """operations on functions, possibly of operations"""
    dim = pick(2, 3)
    ar = [n for n in FACT]

    def leaf():
        while True:
            f, w, _, _ = create(pick(*ar))
            if w.dim == dim:
                return f, (lambda x, f=f: f.cpp_object.eval(np.ascontiguousarray(x)))

    def tree(d):
        if d == 0:
            return leaf() + ("leaf",)
        op = pick("neg", "add", "sub", "aff")
        f, u, _ = tree(pick(0, d - 1))
        if op == "neg":
            return impl.create_negative(f), (lambda x: -u(x)), op
        if op == "aff":
            t, a, b = affine(dim)
            return impl.create_affinely_transformed_functions(f, t), (lambda x: u(back(a, b, x))), op
        g, v, _ = (f, u, "") if rng.random() < 0.2 else tree(pick(0, d - 1))
        if op == "add":
            return impl.create_functions_addition(f, g), (lambda x: u(x) + v(x)), op
        return impl.create_functions_subtraction(f, g), (lambda x: u(x) - v(x)), op
    with mon.case("operations"):
        f, val, op = tree(pick(1, 2, 3))
        verify(f, Want(dim, value=val), f"operation/{op}/{dim}D", None)
        mon.count("operations created")


def refused(key, fn, *a, kinds=(AssertionError,), **k):
    data = show(a, k)
    try:
        fn(*a, **k)
    except kinds as e:
        mon.see(f"refused/{key}")
        return
    except Exception as e:
        mon.bad(f"refused/{key}", f"{type(e).__name__} instead of AssertionError: {e}", data)
        return
    mon.bad(f"refused/{key}", "an argument documented as invalid is accepted", data)


def invalid():
    bad_r = pick(0.0, -0.3, np.float32(-1), float("nan"))
    v = lambda n: U(-0.5, 0.5, n).astype(pick(np.float32, np.float64))  # noqa
    for name, dim in (("create_disk", 2), ("create_sphere", 3)):
        f = getattr(impl, name)
        refused(name + "/radius", f, bad_r)
        refused(name + "/radius with centre", f, bad_r, v(dim))
        refused(name + "/center", f, 0.5, v(pick(1, 5 - dim, 4)))
    for name, dim in (("create_ellipse", 2), ("create_ellipsoid", 3)):
        f = getattr(impl, name)
        s = U(0.2, 1, dim)
        s[rng.integers(dim)] = pick(0.0, -0.5)
        refused(name + "/semi-axes", f, s)
        refused(name + "/size", f, U(0.2, 1, pick(1, 5 - dim, 4)))
    f = impl.create_cylinder
    refused("create_cylinder/radius", f, bad_r, v(3), None)
    refused("create_cylinder/origin", f, 0.5, v(pick(1, 2, 4)), None)
    f = impl.create_annulus
    refused("create_annulus/inner", f, bad_r, 1.0)
    refused("create_annulus/outer", f, 0.5, bad_r)
    refused("create_annulus/center", f, 0.5, 1.0, v(pick(1, 3)))
    f = impl.create_torus
    refused("create_torus/major", f, bad_r, 0.3)
    refused("create_torus/minor", f, 1.0, bad_r)
    refused("create_torus/center", f, 1.0, 0.3, v(pick(1, 2, 4)))
    refused("create_torus/center with axis", f, 1.0, 0.3, v(pick(1, 2, 4)), v(3))
    refused("create_torus/axis", f, 1.0, 0.3, None, v(pick(1, 2, 4)))
    refused("create_torus/axis with center", f, 1.0, 0.3, v(3), v(pick(1, 2, 4)))
    refused("create_constant/dim", impl.create_constant, 0.5, pick(0, 1, 4))
    for name, dim in (("create_plane", 3), ("create_line", 2)):
        f = getattr(impl, name)
        for on, nn in ((5 - dim, None), (5 - dim, dim), (None, 5 - dim), (dim, 5 - dim), (dim, 1)):
            refused(f"{name}/sizes", f, None if on is None else v(on), None if nn is None else v(nn))
    f = impl.create_dim_linear
    refused("create_dim_linear/size", f, v(pick(2, 3, 5, 9)))
    refused("create_dim_linear/size, list", f, [0.1] * pick(2, 3, 5, 9))
    for dim in (2, 3):
        refused("create_dim_linear/transformation", f, v(2**(5 - dim)), affine(dim)[0])
        refused("create_box/transformation", impl.create_box, affine(dim)[0], 5 - dim)
    refused("create_box/dim", impl.create_box, None, pick(0, 1, 4))
    for n in FORMS:
        f = getattr(impl, "create_" + n)
        refused(n + "/periods", f, v(pick(1, 4)))
        refused(n + "/periods, list", f, [1.0] * pick(1, 4))
        refused(n + "/z in 3D", f, U(0.3, 1, 3), pick(0.0, 0.5))
    g = impl.create_disk(0.5)
    refused("eval/points", g.eval, points(3), kinds=(Exception,))
    refused("grad/points", g.grad, points(3), kinds=(Exception,))


for i in range(mon.scale(40, 250)):
    for name in FACT:
        one(name)
for i in range(mon.scale(400, 3000)):
    combined()
for i in range(mon.scale(20, 100)):
    invalid()
mon.done()
