from .core.expr import _Named
from .domain import as_domain


class GeometricQuantity(_Named):
    def __init__(self, domain):
        self._domain = as_domain(domain)

    def ufl_domain(self):
        return self._domain

    def _key(self):
        return (type(self).__name__, self._domain)


class Jacobian(GeometricQuantity):
    @property
    def ufl_shape(self):
        return (int(self._domain.geometric_dimension()), int(self._domain.topological_dimension()))


class JacobianDeterminant(GeometricQuantity):
    pass


class SpatialCoordinate(GeometricQuantity):
    @property
    def ufl_shape(self):
        return (int(self._domain.geometric_dimension()),)


class FacetNormal(SpatialCoordinate):
    pass
