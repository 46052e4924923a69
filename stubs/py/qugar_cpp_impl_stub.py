"""Stand-in for the part of the compiled extension that creates implicit functions: the
names, argument names, overloads and conversions of
python/nanobind_wrappers/{impl_functions,common}.cpp, over closed forms in numpy.

Functions are callables x -> values for points (dim, n), written so that a complex step
gives the gradient."""
import numpy as np

__doc__ = "stand-in"
__version__ = "0.0.4"


class _Func:
    def __init__(self, kind, bzr, fn):
        self.kind, self.bzr, self.fn = kind, bzr, fn

    def _points(self, points):
        if not (isinstance(points, np.ndarray) and points.ndim == 2 and points.shape[1] == self.dim
                and points.dtype.kind in "fiu"):
            raise TypeError("eval(): incompatible function arguments")
        return points.astype(np.float64).T

    def eval(self, points):
        p = self._points(points)
        return np.array(self.fn(p) + np.zeros(p.shape[1]), dtype=np.float64)

    def grad(self, points):
        p = self._points(points)
        g = np.empty(p.T.shape)
        for d in range(self.dim):
            q = p.astype(complex)
            q[d] += 1e-40j
            g[:, d] = np.imag(self.fn(q) + np.zeros(p.shape[1])) / 1e-40
        return g


class ImplicitFunc_2D(_Func):
    dim = 2


class ImplicitFunc_3D(_Func):
    dim = 3


CLS = {2: ImplicitFunc_2D, 3: ImplicitFunc_3D}


class _Affine:

    def __init__(self, A, b):
        self.A, self.b = np.array(A, float), np.array(b, float)
        self.inv = np.linalg.inv(self.A)

    def back(self, x):
        return self.inv @ (x - self.b[:, None])


class AffineTransf_2D(_Affine):
    dim = 2


class AffineTransf_3D(_Affine):
    dim = 3


class _Ref:

    def __init__(self, origin, basis):
        self.origin, self.basis = np.array(origin, float), np.array(basis, float)


class RefSystem_2D(_Ref):
    dim = 2


class RefSystem_3D(_Ref):
    dim = 3


# ------------------------------------------------------------- argument conversion
class Bad(Exception):
    pass


def real(v):
    if v is None or isinstance(v, (str, np.ndarray)):
        raise Bad
    try:
        return float(v)
    except Exception:
        raise Bad


def boolean(v):
    if v is True or v is False:
        return v
    raise Bad


def array(n):
    def f(v):
        if not isinstance(v, np.ndarray) or v.shape != (n,) or v.dtype.kind not in "fiu":
            raise Bad
        return v.astype(np.float64)
    return f


def coefs(n):
    """an array or a sequence of the right length"""
    def f(v):
        if isinstance(v, (list, tuple)):
            if len(v) != n:
                raise Bad
            return np.array([real(x) for x in v])
        return array(n)(v)
    return f


def inst(c):
    def f(v):
        if not isinstance(v, c):
            raise Bad
        return v
    return f


REQ = object()
BZR = ("use_bzr", boolean, True)
TABLE = {}


def overload(name, *spec):
    """spec: (argument name, converter[, default])"""
    def deco(fn):
        TABLE.setdefault(name, []).append(([(s[0], s[1], s[2] if len(s) > 2 else REQ) for s in spec], fn))

        def call(*a, **k):
            for sp, g in TABLE[name]:
                if len(a) > len(sp):
                    continue
                names = [s[0] for s in sp]
                if any(x not in names[len(a):] for x in k):
                    continue
                try:
                    vals = []
                    for i, (n, conv, dflt) in enumerate(sp):
                        v = a[i] if i < len(a) else k.get(n, dflt)
                        if v is REQ:
                            raise Bad
                        vals.append(conv(v))
                except Bad:
                    continue
                return g(*vals)
            raise TypeError(f"{name}(): incompatible function arguments: "
                            f"{[type(x).__name__ for x in a]} {sorted(k)}")
        call.__name__ = name
        globals()[name] = call
        return fn
    return deco


def make(dim, kind, bzr, fn):
    return CLS[dim](kind, bzr, fn)


# ----------------------------------------------------------------------- primitives
def sq(v):
    return sum(c * c for c in v)


def dist(x, c, r, bzr):
    s = sq(x - c[:, None])
    return s - r * r if bzr else np.sqrt(s) - r


def _ball(name, dim):
    @overload(name, ("radius", real), BZR)
    def a(r, b):
        return make(dim, name, b, lambda x: dist(x, np.zeros(dim), r, b))

    @overload(name, ("radius", real), ("center", array(dim)), BZR)
    def c(r, o, b):
        return make(dim, name, b, lambda x: dist(x, o, r, b))


_ball("create_disk", 2)
_ball("create_sphere", 3)


def _ell(name, dim):
    def mk(s, rs, b):
        def fn(x):
            y = rs.basis @ (x - rs.origin[:, None])
            v = sum((y[i] / s[i]) ** 2 for i in range(dim))
            return v - 1 if b else np.sqrt(v) - 1
        return make(dim, name, b, fn)
    rcls = RefSystem_2D if dim == 2 else RefSystem_3D

    @overload(name, ("semi_axes", array(dim)), BZR)
    def a(s, b):
        return mk(s, rcls(np.zeros(dim), np.eye(dim)), b)

    @overload(name, ("semi_axes", array(dim)), ("ref_system", _sys(dim)), BZR)
    def c(s, rs, b):
        return mk(s, rs, b)


def _sys(dim):
    want = RefSystem_2D if dim == 2 else RefSystem_3D

    def f(v):
        if type(v) is not want:
            raise Bad
        return v
    return f


def _aff(dim):
    want = AffineTransf_2D if dim == 2 else AffineTransf_3D

    def f(v):
        if type(v) is not want:
            raise Bad
        return v
    return f


_ell("create_ellipse", 2)
_ell("create_ellipsoid", 3)


def split(x, o, ax):
    """height along the axis and squared distance to it"""
    n = ax / np.linalg.norm(ax)
    y = x - o[:, None]
    h = sum(n[i] * y[i] for i in range(3))
    return h, sq(y) - h * h


def _cyl(r, o, ax, b):
    def fn(x):
        _, s = split(x, o, ax)
        return s - r * r if b else np.sqrt(s) - r
    return make(3, "create_cylinder", b, fn)


Z3 = np.array([0.0, 0.0, 1.0])
overload("create_cylinder", ("radius", real), ("origin", array(3)), BZR)(lambda r, o, b: _cyl(r, o, Z3, b))
overload("create_cylinder", ("radius", real), ("origin", array(3)), ("axis", array(3)), BZR)(_cyl)


def _ann(ri, ro, c, b):
    def fn(x):
        s = sq(x - c[:, None])
        if b:
            return (s - ri * ri) * (s - ro * ro)
        d = np.sqrt(s)
        return np.where(d.real > (ri + ro) / 2, d - ro, ri - d)
    return make(2, "create_annulus", b, fn)


RR = (("inner_radius", real), ("outer_radius", real))
overload("create_annulus", *RR, BZR)(lambda i, o, b: _ann(i, o, np.zeros(2), b))
overload("create_annulus", *RR, ("center", array(2)), BZR)(_ann)


def _tor(R, r, c, ax, b):
    def fn(x):
        h, s = split(x, c, ax)
        if b:
            q = h * h + s + R * R - r * r
            return q * q - 4 * R * R * s
        d = np.sqrt(s) - R
        return np.sqrt(d * d + h * h) - r
    return make(3, "create_torus", b, fn)


MM = (("major_radius", real), ("minor_radius", real))
overload("create_torus", *MM, BZR)(lambda R, r, b: _tor(R, r, np.zeros(3), Z3, b))
overload("create_torus", *MM, ("center", array(3)), BZR)(lambda R, r, c, b: _tor(R, r, c, Z3, b))
overload("create_torus", *MM, ("center", array(3)), ("axis", array(3)), BZR)(_tor)


def _flat(name, dim):
    def mk(o, n, b):
        return make(dim, name, b, lambda x: sum(n[i] * (x[i] - o[i]) for i in range(dim)))
    overload(name, BZR)(lambda b: mk(np.zeros(dim), np.eye(dim)[0], b))
    overload(name, ("origin", array(dim)), ("normal", array(dim)), BZR)(mk)


_flat("create_line", 2)
_flat("create_plane", 3)


def _perdim(dim):
    overload(f"create_constant_{dim}D", ("value", real), BZR)(
        lambda v, b: make(dim, "create_constant", b, lambda x: v + 0 * x[0]))

    def lin(c, t=None):
        def fn(x):
            y = x if t is None else t.back(x)
            out = 0
            for i in range(2**dim):
                w = c[i]
                for d in range(dim):
                    w = w * (y[d] if i >> d & 1 else 1 - y[d])
                out = out + w
            return out
        return make(dim, "create_dim_linear", False, fn)
    overload("create_dim_linear", ("coefficients", coefs(2**dim)))(lin)
    overload("create_dim_linear", ("coefficients", coefs(2**dim)), ("affine_transf", _aff(dim)))(lin)

    def box(t=None):
        def fn(x):
            y = x if t is None else t.back(x)
            k = np.argmax(np.abs(y.real), axis=0)
            v = np.take_along_axis(y, k[None], axis=0)[0]
            return np.where(v.real < 0, -v, v) - 1
        return make(dim, "create_square", False, fn)
    overload(f"create_square_{dim}D")(box)
    overload("create_square", ("affine_transf", _aff(dim)))(box)

    F = inst(CLS[dim])
    overload("create_affinely_transformed", ("base_func", F), ("affine_transf", _aff(dim)))(
        lambda f, t: make(dim, "transformed", False, lambda x: f.fn(t.back(x))))
    overload("create_negative", ("impl_func", F))(
        lambda f: make(dim, "negative", f.bzr, lambda x: -f.fn(x)))
    overload("create_functions_addition", ("lhs_func", F), ("rhs_func", F))(
        lambda f, g: make(dim, "addition", f.bzr and g.bzr, lambda x: f.fn(x) + g.fn(x)))
    overload("create_functions_subtraction", ("lhs_func", F), ("rhs_func", F))(
        lambda f, g: make(dim, "subtraction", f.bzr and g.bzr, lambda x: f.fn(x) - g.fn(x)))


_perdim(2)
_perdim(3)


def _gyroids():
    s, c = np.sin, np.cos
    forms = dict(
        Schoen=lambda x, y, z: s(x) * c(y) + s(y) * c(z) + s(z) * c(x),
        SchoenIWP=lambda x, y, z: 2 * (c(x) * c(y) + c(y) * c(z) + c(z) * c(x)) - (c(2 * x) + c(2 * y) + c(2 * z)),
        SchoenFRD=lambda x, y, z: 4 * c(x) * c(y) * c(z) - (c(2 * x) * c(2 * y) + c(2 * x) * c(2 * z) + c(2 * y) * c(2 * z)),
        FischerKochS=lambda x, y, z: c(2 * x) * s(y) * c(z) + c(x) * c(2 * y) * s(z) + s(x) * c(y) * c(2 * z),
        SchwarzPrimitive=lambda x, y, z: c(x) + c(y) + c(z),
        SchwarzDiamond=lambda x, y, z: c(x) * c(y) * c(z) - s(x) * s(y) * s(z))
    for name, g in forms.items():
        def two(m, z, g=g, name=name):
            a = 2 * np.pi * m
            return make(2, name, False, lambda x: g(a[0] * x[0], a[1] * x[1], 2 * np.pi * z))

        def three(m, g=g, name=name):
            a = 2 * np.pi * m
            return make(3, name, False, lambda x: g(a[0] * x[0], a[1] * x[1], a[2] * x[2]))
        overload("create_" + name, ("periods", coefs(2)), ("z", real, 0.0))(two)
        overload("create_" + name, ("periods", coefs(3)))(three)


_gyroids()
