import hashlib

import basix
import numpy as np


class QuadratureRule:
    def __init__(self, points, weights, tensor_factors=None):
        self.points = np.ascontiguousarray(points)
        self.weights = weights
        self.tensor_factors = tensor_factors
        self.has_tensor_factors = tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, other):
        return np.allclose(self.points, other.points) and np.allclose(self.weights, other.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


def create_quadrature_points_and_weights(integral_type, cell, degree, rule, elements, use_tensor_product=False):
    name = str(cell)
    if integral_type == "cell":
        names = [name]
    elif integral_type in ("exterior_facet", "interior_facet"):
        names = [str(f) for f in cell.facet_types]
    else:
        raise NotImplementedError(integral_type)
    pts, wts, tf = {}, {}, {}
    for n in names:
        if n == "vertex":
            pts[n], wts[n] = np.ones((1, 0)), np.ones(1)
        else:
            pts[n], wts[n] = basix.make_quadrature(getattr(basix.CellType, n), degree)
    return pts, wts, tf
