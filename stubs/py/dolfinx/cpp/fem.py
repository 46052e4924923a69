import enum


class _IntegralType(enum.IntEnum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3


IntegralType = _IntegralType


def pack_coefficients(form_cpp):
    """(integral type, position) -> array (rows, cstride): one row per cell or exterior facet,
    two per interior facet. The two rows of an interior facet hold, one after the other,
    the values of each coefficient on both sides."""
    return form_cpp.packed()


def assemble_scalar(form_cpp, constants, coeffs):
    return form_cpp.scalar(constants, coeffs)
