import enum


class _CMapCpp:
    def __init__(self, e):
        self.cell_type, self.dim, self.degree, self.element = e.cell_type, e.dim, e.degree, e


class CoordinateElement:
    def __init__(self, e):
        self._cpp_object = _CMapCpp(e)

    @property
    def dim(self):
        return self._cpp_object.dim


def coordinate_element(e, *a):
    e = getattr(e, "_e", e)
    return CoordinateElement(e)


from dolfinx.cpp.fem import _IntegralType as IntegralType  # noqa
from .forms import Form  # noqa


import numpy as _np  # noqa
import ufl as _ufl  # noqa


class Constant(_ufl.Constant):
    def __init__(self, domain, c):
        c = _np.asarray(c)
        super().__init__(domain, c.shape)
        self._value = c
        self._cpp_object = ("constant", self._count)

    @property
    def value(self):
        return self._value


from .assemble import assemble_scalar, pack_constants  # noqa


def extract_function_spaces(forms, index=0):
    return forms._cpp_object.function_spaces[index]


def create_interpolation_data(V_to, V_from, cells, padding=1e-14):
    from dolfinx.geometry import PointOwnershipData
    d = PointOwnershipData(cells, padding)
    d.V_to, d.V_from = V_to, V_from
    return d
