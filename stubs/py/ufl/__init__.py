"""Stand-in for the parts of UFL the code under test (and basix.ufl) touches.
Expressions are trees that can be evaluated numerically: `e.evaluate(env)`."""
__version__ = "2025.2.0"
from . import sobolevspace, pullback, finiteelement, cell, domain, geometry, operators, protocols  # noqa
from .cell import Cell, AbstractCell, as_cell  # noqa
from .pullback import (identity_pullback, l2_piola, contravariant_piola, covariant_piola,  # noqa
                       double_contravariant_piola, double_covariant_piola)
from .sobolevspace import L2, H1, H2, HInf, HDiv, HCurl, HEin, HDivDiv  # noqa
from .core import expr as _expr  # noqa
from .core.expr import Expr, Constant, Coefficient, Argument, Zero, as_ufl  # noqa
from .domain import AbstractDomain, Mesh, extract_unique_domain  # noqa
from .geometry import Jacobian, SpatialCoordinate, FacetNormal, JacobianDeterminant  # noqa
from .operators import sqrt, inner, dot, inv, transpose, grad, derivative, avg, jump  # noqa
from .integral import Integral  # noqa
from .form import Form  # noqa
from .measure import Measure, MeasureSum  # noqa
from . import integral, form, measure, algorithms  # noqa


def FunctionSpace(domain, element):
    from .core.expr import FunctionSpace as F
    return F(domain, element)


def TestFunction(V):
    return Argument(V, 0)


def TrialFunction(V):
    return Argument(V, 1)


dx = Measure("dx")
ds = Measure("ds")
dS = Measure("dS")
