import numpy as np


class _AdjacencyList:
    _t = np.int32

    def __init__(self, data, offsets=None):
        if offsets is None:
            data = np.asarray(data)
            if data.dtype != object and data.ndim == 1:
                offsets = np.arange(data.size + 1, dtype=np.int32)
            elif data.dtype != object and data.ndim == 2:
                offsets = np.arange(0, data.size + 1, max(data.shape[1], 1), dtype=np.int32)
                data = data.ravel()
        self.array = np.asarray(data, dtype=self._t)
        self.offsets = np.asarray(offsets, dtype=np.int32)

    @property
    def num_nodes(self):
        return len(self.offsets) - 1

    def links(self, i):
        i = int(i)
        if not 0 <= i < self.num_nodes:
            raise IndexError(f"node {i} of an adjacency list with {self.num_nodes} nodes")
        return self.array[self.offsets[i]:self.offsets[i + 1]]

    def __len__(self):
        return self.num_nodes


class AdjacencyList_int32(_AdjacencyList):
    _t = np.int32


class AdjacencyList_int64(_AdjacencyList):
    _t = np.int64
