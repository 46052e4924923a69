import basix


class _Str(str):
    """Readable both as a property and as a method (UFL changed from one to the other)."""

    def __call__(self):
        return str(self)


class _Int(int):
    def __call__(self):
        return int(self)


class AbstractCell:
    pass


_facets = {"interval": ["vertex"], "triangle": ["interval"] * 3, "quadrilateral": ["interval"] * 4,
           "tetrahedron": ["triangle"] * 4, "hexahedron": ["quadrilateral"] * 6,
           "prism": ["triangle", "quadrilateral", "quadrilateral", "quadrilateral", "triangle"],
           "pyramid": ["quadrilateral"] + ["triangle"] * 4, "vertex": []}
_tdim = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3,
         "prism": 3, "pyramid": 3}


class Cell(AbstractCell):
    def __init__(self, cellname):
        if cellname not in _tdim:
            raise ValueError(f"Unsupported cell type: {cellname}")
        self._cellname = cellname

    @property
    def cellname(self):
        return _Str(self._cellname)

    @property
    def topological_dimension(self):
        return _Int(_tdim[self._cellname])

    def _topology(self):
        return basix.topology(getattr(basix.CellType, "point" if self._cellname == "vertex" else self._cellname))

    def num_sub_entities(self, dim):
        t = self._topology()
        return len(t[dim]) if 0 <= dim < len(t) else 0

    def num_vertices(self):
        return self.num_sub_entities(0)

    def num_edges(self):
        return self.num_sub_entities(1)

    def num_facets(self):
        return self.num_sub_entities(_tdim[self._cellname] - 1)

    def sub_entities(self, dim):
        td = _tdim[self._cellname]
        if dim == td:
            return (self,)
        if dim == td - 1:
            return tuple(Cell(n) for n in _facets[self._cellname])
        return tuple(Cell("interval" if dim == 1 else "vertex") for _ in range(self.num_sub_entities(dim)))

    def sub_entity_types(self, dim):
        seen = []
        for c in self.sub_entities(dim):
            if c not in seen:
                seen.append(c)
        return tuple(seen)

    @property
    def facet_types(self):
        return self.sub_entity_types(_tdim[self._cellname] - 1)

    def __eq__(self, other):
        return type(other) is type(self) and other._cellname == self._cellname

    def __hash__(self):
        return hash(("Cell", self._cellname))

    def __lt__(self, o):
        return self._cellname < o._cellname

    def __str__(self):
        return self._cellname

    def __repr__(self):
        return f"Cell({self._cellname!r})"


def as_cell(c):
    return c if isinstance(c, AbstractCell) else Cell(c)
