from .core.expr import as_ufl, Sqrt, Inner, Inverse, Transposed, Operator


def sqrt(x):
    return Sqrt(as_ufl(x))


def inner(a, b):
    return Inner(as_ufl(a), as_ufl(b))


dot = inner


def inv(a):
    return Inverse(as_ufl(a))


def transpose(a):
    return Transposed(as_ufl(a))


class _Opaque(Operator):
    def _shape(self, *s):
        return s[0]


def grad(a):
    return _Opaque(as_ufl(a))


def derivative(*a):
    raise NotImplementedError


def avg(a):
    return _Opaque(as_ufl(a))


jump = avg
