import numpy as np

from dolfinx.cpp.fem import IntegralType


class Form:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module

    @property
    def ufcx_form(self):
        return self._ufcx_form


_ufl_to_dolfinx_domain = {"cell": IntegralType.cell, "exterior_facet": IntegralType.exterior_facet,
                          "interior_facet": IntegralType.interior_facet, "vertex": IntegralType.vertex}


class _FormCpp:
    """records what the C++ form is built from"""

    def __init__(self, forms, spaces, coefficients, constants, subdomains, entity_maps, mesh):
        self.forms, self.spaces, self.coefficients, self.constants = forms, spaces, coefficients, constants
        self.subdomains, self.entity_maps, self.mesh = subdomains, entity_maps, mesh


def form_cpp_class(dtype):
    return type("Form_" + np.dtype(dtype).name, (_FormCpp,), {"dtype": np.dtype(dtype)})


def get_integration_domains(integral_type, subdomain, subdomain_ids):
    if subdomain is None:
        return []
    if not isinstance(subdomain, list):
        return [(i, ("entities", integral_type, id(subdomain), int(i))) for i in subdomain_ids]
    return [(s[0], np.array(s[1])) for s in sorted(subdomain, key=lambda s: s[0])]
