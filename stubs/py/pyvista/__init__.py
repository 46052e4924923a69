"""Stand-in for the part of PyVista used by the code under test: data sets as explicit
lists of cells. The order in which edges and surfaces are extracted is the one of VTK's
filters for pixels and voxels."""
import enum

import numpy as np


class CellType(enum.IntEnum):
    VERTEX = 1
    LINE = 3
    PIXEL = 8
    QUAD = 9
    VOXEL = 11
    HEXAHEDRON = 12
    LAGRANGE_CURVE = 68
    LAGRANGE_QUADRILATERAL = 70
    LAGRANGE_HEXAHEDRON = 72


_N = {1: 1, 3: 2, 8: 4, 9: 4, 11: 8, 12: 8}


class _CellData(dict):
    def __init__(self, owner, d=()):
        super().__init__()
        self._owner = owner
        for k, v in dict(d).items():
            self[k] = v

    def __setitem__(self, k, v):
        v = np.asarray(v)
        n = self._owner.n_cells
        if v.ndim == 0 or len(v) != n:
            raise ValueError(f"Invalid array shape. Array '{k}' has length ({len(v) if v.ndim else 0}) but a length of ({n}) was expected.")
        super().__setitem__(k, v)


class DataSet:
    def __init__(self, points, cells, types, data=()):
        self.points, self._cells, self.celltypes = points, [np.asarray(c) for c in cells], np.asarray(types)
        self.cell_data = _CellData(self, data)

    @property
    def n_cells(self):
        return len(self._cells)

    @property
    def n_points(self):
        return len(self.points)

    def cell_points(self, i):
        return self.points[self._cells[i]]

    def _sub(self, ind, cls=None):
        ind = np.asarray(ind, dtype=np.int64)
        used = np.unique(np.concatenate([self._cells[i] for i in ind])) if len(ind) else np.zeros(0, int)
        new = np.full(len(self.points), -1)
        new[used] = np.arange(len(used))
        return UnstructuredGrid._raw(self.points[used], [new[self._cells[i]] for i in ind], self.celltypes[ind],
                                     {k: v[ind] for k, v in self.cell_data.items()})

    def extract_cells(self, ind):
        ind = np.asarray(ind)
        if ind.dtype == bool:
            ind = np.flatnonzero(ind)
        if ind.size and (ind.min() < 0 or ind.max() >= self.n_cells):
            raise IndexError("cell index out of range")
        return self._sub(np.unique(ind))

    def threshold(self, value, scalars):
        # a value: keep the cells with scalars >= value
        v = np.asarray(self.cell_data[scalars], dtype=float)
        return self._sub(np.flatnonzero(v >= float(value)))

    def explode(self, factor=0.1):
        if factor:
            raise NotImplementedError("stub: explode with a factor")
        pts, cells, n = [], [], 0
        for c in self._cells:
            pts.append(self.points[c])
            cells.append(np.arange(n, n + len(c)))
            n += len(c)
        return UnstructuredGrid._raw(np.concatenate(pts) if pts else self.points[:0], cells, self.celltypes, self.cell_data)

    def _parts(self, table, t):
        cells, src = [], []
        for i, (c, ct) in enumerate(zip(self._cells, self.celltypes)):
            for loc in table[int(ct)]:
                cells.append(c[list(loc)])
                src.append(i)
        keys = [tuple(sorted(c)) for c in cells]
        if len(set(keys)) != len(keys):
            raise NotImplementedError("stub: shared edges or faces")
        src = np.array(src, dtype=np.int64)
        return PolyData(self.points, cells, np.full(len(cells), int(t)), {k: v[src] for k, v in self.cell_data.items()})

    def extract_all_edges(self):
        return self._parts({8: [(0, 1), (1, 3), (2, 3), (0, 2)], 9: [(0, 1), (1, 2), (2, 3), (3, 0)]}, CellType.LINE)

    def extract_surface(self):
        return self._parts({11: [(0, 1, 5, 4), (0, 2, 3, 1), (0, 4, 6, 2), (1, 3, 7, 5), (2, 6, 7, 3), (4, 5, 7, 6)]}, CellType.QUAD)


class PolyData(DataSet):
    pass


class UnstructuredGrid(DataSet):
    @classmethod
    def _raw(cls, points, cells, types, data=()):
        g = cls.__new__(cls)
        DataSet.__init__(g, points, cells, types, data)
        return g

    def __init__(self, cells, types, points):
        flat = np.asarray(cells).ravel()
        points, types = np.asarray(points), np.asarray(types)
        if points.ndim != 2 or points.shape[1] != 3:
            raise ValueError("points must be 3D")
        out, i = [], 0
        while i < len(flat):
            n = int(flat[i])
            c = flat[i + 1:i + 1 + n]
            if len(c) != n or (n and (c.min() < 0 or c.max() >= len(points))):
                raise ValueError("invalid connectivity")
            out.append(c)
            i += n + 1
        if len(out) != len(types):
            raise ValueError("Number of cell types must match the number of cells")
        for c, t in zip(out, types):
            if int(t) in _N and len(c) != _N[int(t)]:
                raise ValueError("wrong number of points for the cell type")
        super().__init__(points, out, types)


class RectilinearGrid(DataSet):
    def __init__(self, x, y=None, z=None):
        ax = [np.asarray(a) for a in (x, y, z) if a is not None]
        d = len(ax)
        pts = np.zeros((int(np.prod([len(a) for a in ax])), 3))
        for k, m in enumerate(np.meshgrid(*ax, indexing="ij")):
            pts[:, k] = m.ravel(order="F")
        n = [len(a) for a in ax]
        st = np.cumprod([1] + n)[:d]
        cells = []
        for t in np.ndindex(*[k - 1 for k in n[::-1]]):
            o = int(np.dot(t[::-1], st))
            cells.append([o + sum(int(st[k]) * (v >> k & 1) for k in range(d)) for v in range(1 << d)])
        super().__init__(pts, cells, np.full(len(cells), [0, 3, 8, 11][d]))


Grid = DataSet


class MultiBlock(dict):
    pass
