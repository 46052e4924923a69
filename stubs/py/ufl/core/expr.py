import itertools
import numbers

import numpy as np

_ids = itertools.count()


class Expr:
    ufl_operands = ()
    ufl_shape = ()
    __array_ufunc__ = None

    def terminals(self):
        if not self.ufl_operands:
            yield self
        for o in self.ufl_operands:
            yield from o.terminals()

    def ufl_domain(self):
        return None

    def _key(self):
        return (type(self).__name__,) + tuple(o._key() for o in self.ufl_operands)

    def __hash__(self):
        return hash(self._key())

    def __eq__(self, o):
        return isinstance(o, Expr) and self._key() == o._key()

    def __add__(self, o):
        return Sum(self, as_ufl(o))

    def __radd__(self, o):
        return Sum(as_ufl(o), self)

    def __sub__(self, o):
        return Sum(self, Product(ScalarValue(-1.0), as_ufl(o)))

    def __neg__(self):
        return Product(ScalarValue(-1.0), self)

    def __mul__(self, o):
        from ..measure import Measure, MeasureSum
        if isinstance(o, (Measure, MeasureSum)):
            return NotImplemented
        try:
            o = as_ufl(o)
        except TypeError:
            return NotImplemented
        return Product(self, o)

    def __rmul__(self, o):
        return Product(as_ufl(o), self)

    def __truediv__(self, o):
        return Division(self, as_ufl(o))

    def __rtruediv__(self, o):
        return Division(as_ufl(o), self)

    def __pow__(self, o):
        return Power(self, as_ufl(o))

    def __getitem__(self, i):
        return Indexed(self, i)

    @property
    def T(self):
        return Transposed(self)

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(map(repr, self.ufl_operands))})"


class Terminal(Expr):
    def _key(self):
        return (type(self).__name__, id(self))

    def _ufl_signature_data_(self, renumbering):
        return repr(self) if self.ufl_domain() is None else (type(self).__name__, self.ufl_domain()._ufl_signature_data_(renumbering))


class ScalarValue(Terminal):
    def __init__(self, v):
        self._value = v

    def _key(self):
        return ("ScalarValue", self._value)

    def evaluate(self, env):
        return self._value

    def __repr__(self):
        return repr(self._value)


class Zero(ScalarValue):
    def __init__(self, shape=()):
        super().__init__(0.0)
        self.ufl_shape = tuple(shape)

    def evaluate(self, env):
        return np.zeros(self.ufl_shape) if self.ufl_shape else 0.0


def as_ufl(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, numbers.Number) or (isinstance(x, np.generic)):
        return ScalarValue(complex(x) if isinstance(x, complex) else float(x))
    raise TypeError(f"{x!r} can not be converted to any UFL type.")


class FunctionSpace:
    def __init__(self, domain, element):
        self._domain, self._e = domain, element

    def ufl_domain(self):
        return self._domain

    def ufl_element(self):
        return self._e

    def _ufl_signature_data_(self, renumbering):
        return ("FunctionSpace", self._domain._ufl_signature_data_(renumbering), repr(self._e))


class _Named(Terminal):
    def evaluate(self, env):
        return env[self]


class Constant(_Named):
    def __init__(self, domain, shape=(), count=None):
        d = domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain
        self._ufl_domain, self._ufl_shape = d, tuple(shape)
        self._count = next(_ids) if count is None else count

    @property
    def ufl_shape(self):
        return self._ufl_shape

    def ufl_domain(self):
        return self._ufl_domain

    def count(self):
        return self._count

    def _key(self):
        return ("Constant", self._count)

    def _ufl_signature_data_(self, renumbering):
        return f"Constant({self._ufl_domain._ufl_signature_data_(renumbering)}, {self._ufl_shape}, {renumbering[self]!r})"


class Coefficient(_Named):
    def __init__(self, V, count=None):
        self._V = V
        self._count = next(_ids) if count is None else count

    def ufl_function_space(self):
        return self._V

    def ufl_domain(self):
        return self._V.ufl_domain()

    def _key(self):
        return ("Coefficient", self._count)

    def _ufl_signature_data_(self, renumbering):
        return ("Coefficient", renumbering[self], self._V._ufl_signature_data_(renumbering))


class Argument(_Named):
    def __init__(self, V, number):
        self._V, self._number = V, number

    def ufl_function_space(self):
        return self._V

    def ufl_domain(self):
        return self._V.ufl_domain()

    def number(self):
        return self._number

    def _key(self):
        return ("Argument", id(self._V), self._number)

    def _ufl_signature_data_(self, renumbering):
        return ("Argument", self._V._ufl_signature_data_(renumbering), self._number)


class Operator(Expr):
    def __init__(self, *ops):
        self.ufl_operands = ops
        self.ufl_shape = self._shape(*[o.ufl_shape for o in ops])

    def _shape(self, *s):
        return ()

    def evaluate(self, env):
        return self._ev(*[o.evaluate(env) for o in self.ufl_operands])


class Sum(Operator):
    def _shape(self, a, b):
        if a != b:
            raise ValueError("Can't add expressions with different shapes.")
        return a

    def _ev(self, a, b):
        return a + b


class Product(Operator):
    def _shape(self, a, b):
        if not a or not b:
            return a or b
        if len(a) == 2 and len(b) in (1, 2) and a[1] == b[0]:
            return (a[0],) + b[1:]
        raise ValueError(f"Invalid ranks in product: {a} {b}")

    def _ev(self, a, b):
        return np.asarray(a) @ np.asarray(b) if np.ndim(a) and np.ndim(b) else a * b


class Division(Operator):
    def _shape(self, a, b):
        if b:
            raise ValueError("Division by non-scalar is undefined.")
        return a

    def _ev(self, a, b):
        return a / b


class Power(Operator):
    def _ev(self, a, b):
        return a ** b


class Indexed(Operator):
    def __init__(self, e, i):
        self._i = i
        self.ufl_operands = (e,)
        self.ufl_shape = ()

    def _key(self):
        return ("Indexed", self._i, self.ufl_operands[0]._key())

    def _ev(self, a):
        return np.asarray(a)[self._i]


class Sqrt(Operator):
    def _ev(self, a):
        return np.sqrt(a)


class Inner(Operator):
    def _shape(self, a, b):
        if a != b:
            raise ValueError("Shapes do not match.")
        return ()

    def _ev(self, a, b):
        return np.sum(np.asarray(a) * np.conj(np.asarray(b)))


class Inverse(Operator):
    def _shape(self, a):
        if a and (len(a) != 2 or a[0] != a[1]):
            raise ValueError("Cannot take inverse of rectangular matrix with dimensions {a}.")
        return a

    def _ev(self, a):
        return np.linalg.inv(a) if np.ndim(a) else 1.0 / a


class Transposed(Operator):
    def _shape(self, a):
        if len(a) != 2:
            raise ValueError("Transposed is only defined for rank 2 tensors.")
        return a[::-1]

    def _ev(self, a):
        return np.asarray(a).T
