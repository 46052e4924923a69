import itertools

_ids = itertools.count()


class AbstractDomain:
    pass


class Mesh(AbstractDomain):
    def __init__(self, coordinate_element, ufl_id=None, cargo=None):
        self._e = coordinate_element
        self._ufl_id = next(_ids) if ufl_id is None else ufl_id
        self._ufl_cargo = cargo

    def ufl_id(self):
        return self._ufl_id

    def ufl_cargo(self):
        return self._ufl_cargo

    def ufl_coordinate_element(self):
        return self._e

    def ufl_cell(self):
        return self._e.cell

    def _ufl_signature_data_(self, renumbering):
        return ("Mesh", renumbering[self] if self in renumbering else -1, repr(self._e))

    @property
    def topological_dimension(self):
        return self._e.cell.topological_dimension

    @property
    def geometric_dimension(self):
        from .cell import _Int
        return _Int(self._e.reference_value_shape[0])

    def __repr__(self):
        return f"Mesh({self._e!r}, {self._ufl_id})"

    def __eq__(self, o):
        return type(o) is type(self) and o._ufl_id == self._ufl_id

    def __hash__(self):
        return hash(("Mesh", self._ufl_id))


def as_domain(d):
    if isinstance(d, AbstractDomain):
        return d
    try:
        return extract_unique_domain(d)
    except AttributeError:
        pass
    return d.ufl_domain()


def extract_domains(expr):
    out = []
    for t in expr.terminals():
        d = t.ufl_domain()
        if d is not None and d not in out:
            out.append(d)
    return tuple(out)


def extract_unique_domain(expr, expand_mesh_sequence=True):
    if hasattr(expr, "_expr_domain"):
        return expr._expr_domain
    ds = extract_domains(expr)
    return ds[0] if len(ds) == 1 else None
