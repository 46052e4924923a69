"""As dolfinx.fem.assemble 0.10.0, including its defect in assemble_scalar."""
from dolfinx import cpp as _cpp
import dolfinx.cpp.fem  # noqa


def pack_constants(form):
    return form._cpp_object.packed_constants()


def pack_coefficients(form):
    return _cpp.fem.pack_coefficients(form._cpp_object)


def assemble_scalar(M, constants=None, coeffs=None):
    """Assemble functional."""
    constants = pack_constants(M) if constants is None else constants
    coeffs = pack_coefficients(M) if coeffs is None else constants
    return _cpp.fem.assemble_scalar(M._cpp_object, constants, coeffs)
