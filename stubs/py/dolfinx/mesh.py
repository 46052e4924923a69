import numpy as np
from .cpp.mesh import CellType, GhostMode, create_cell_partitioner  # noqa
from .cpp import mesh as _m


class Mesh:
    def __init__(self, msh, domain=None):
        self._cpp_object = msh
        self._topology, self._geometry = msh.topology, msh.geometry
        self._ufl_domain = domain
        if domain is not None:
            domain._ufl_cargo = msh

    @property
    def comm(self):
        return self._cpp_object.comm

    @property
    def topology(self):
        return self._topology

    @property
    def geometry(self):
        return self._geometry

    def ufl_domain(self):
        return self._ufl_domain

    def ufl_cell(self):
        import ufl
        return ufl.Cell(self.topology.cell_type.name)

    def basix_cell(self):
        return _m._basix_cell[self.topology.cell_type]


class MeshTags:
    def __init__(self, topology, dim, indices, values):
        self.topology, self.dim, self.indices, self.values = topology, dim, indices, values

    def find(self, value):
        return self.indices[self.values == value]


def meshtags(mesh, dim, entities, values):
    entities = np.asarray(entities)
    if isinstance(values, (int, float)):
        values = np.full(len(entities), values, dtype=np.int32 if isinstance(values, int) else np.float64)
    values = np.asarray(values)
    if values.dtype not in (np.dtype(np.int32), np.dtype(np.int64), np.dtype(np.float64), np.dtype(np.int8)):
        raise NotImplementedError(f"Type {values.dtype} not supported.")
    if entities.dtype != np.int32:
        raise TypeError("MeshTags: entities must be int32")
    if len(entities) != len(values):
        raise RuntimeError("Indices and values arrays must have same size.")
    if np.any(np.diff(entities) <= 0):
        raise RuntimeError("MeshTag data is not sorted or not unique")
    return MeshTags(mesh.topology, dim, entities, values)


def exterior_facet_indices(topology):
    d = topology.dim
    f2c = topology.connectivity(d - 1, d)
    if f2c is None:
        raise RuntimeError("Facet to cell connectivity has not been computed.")
    imap = topology.index_map(d - 1)
    total = topology._shared["facet_cells"]()
    return np.array([f for f in range(imap.size_local) if total[topology._ents[d - 1][f]] == 1], dtype=np.int32)


def create_mesh(comm, cells, e, x, partitioner=None):
    """cells in DOLFINx node order, e a basix.ufl coordinate element or ufl.Mesh."""
    import ufl
    from .fem import coordinate_element
    domain = e if isinstance(e, ufl.Mesh) else ufl.Mesh(e)
    cmap = coordinate_element(domain.ufl_coordinate_element().basix_element)
    x = np.asarray(x)
    return Mesh(_m.create_mesh(comm, np.ascontiguousarray(cells, dtype=np.int64), cmap._cpp_object, x, partitioner), domain)
