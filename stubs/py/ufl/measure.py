"""As ufl.measure (2025.2)."""
from itertools import chain
import numbers

from .core.expr import Expr, as_ufl
from .domain import AbstractDomain, as_domain, extract_domains
from .protocols import id_or_none, metadata_equal, metadata_hashdata

_integral_types = [("cell", "dx"), ("exterior_facet", "ds"), ("interior_facet", "dS"), ("vertex", "dP"),
                   ("custom", "dc")]
integral_type_to_measure_name = {l: s for l, s in _integral_types}
measure_name_to_integral_type = {s: l for l, s in _integral_types}


def as_integral_type(t):
    t = t.replace(" ", "_")
    t = measure_name_to_integral_type.get(t, t)
    if t not in integral_type_to_measure_name:
        raise ValueError("Invalid integral_type.")
    return t


class Measure:
    __slots__ = ("__weakref__", "_domain", "_integral_type", "_metadata", "_subdomain_data", "_subdomain_id", "__dict__")

    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        self._integral_type = as_integral_type(integral_type)
        self._domain = None if domain is None else as_domain(domain)
        if subdomain_id == "everywhere":
            pass
        elif isinstance(subdomain_id, numbers.Integral):
            pass
        elif isinstance(subdomain_id, tuple):
            if not all(isinstance(d, numbers.Integral) or d == "everywhere" for d in subdomain_id):
                raise ValueError("Invalid subdomain_id.")
        else:
            raise ValueError("Invalid subdomain_id.")
        self._subdomain_id = subdomain_id
        if metadata is not None and not isinstance(metadata, dict):
            raise ValueError("Invalid metadata.")
        self._metadata = metadata or {}
        self._subdomain_data = subdomain_data

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        if subdomain_id is None:
            subdomain_id = self.subdomain_id()
        if domain is None:
            domain = self.ufl_domain()
        if metadata is None:
            metadata = self.metadata()
        if subdomain_data is None:
            subdomain_data = self.subdomain_data()
        return Measure(self.integral_type(), domain=domain, subdomain_id=subdomain_id, metadata=metadata,
                       subdomain_data=subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        all_args = (subdomain_id, metadata, domain, subdomain_data, degree, scheme)
        if all(a is None for a in all_args):
            return self.reconstruct(subdomain_id="everywhere")
        if isinstance(subdomain_id, AbstractDomain) or hasattr(subdomain_id, "ufl_domain"):
            domain, subdomain_id = subdomain_id, "everywhere"
        if degree is not None or scheme is not None:
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata,
                                subdomain_data=subdomain_data)

    def __add__(self, o):
        if isinstance(o, Measure):
            return MeasureSum(self, o)
        if isinstance(o, MeasureSum):
            return MeasureSum(self, *o._measures)
        return NotImplemented

    def __mul__(self, other):
        return NotImplemented

    def __rmul__(self, integrand):
        from .integral import Integral
        from .form import Form
        if isinstance(integrand, (int, float, complex)):
            integrand = as_ufl(integrand)
        if not isinstance(integrand, Expr):
            return NotImplemented
        if integrand.ufl_shape:
            raise ValueError("Can only integrate scalar expressions.")
        subdomain_id = self.subdomain_id()
        if isinstance(subdomain_id, tuple):
            return sum(chain((integrand * self.reconstruct(subdomain_id=d) for d in subdomain_id)), Form([]))
        if not (isinstance(subdomain_id, str) or isinstance(subdomain_id, numbers.Integral)):
            raise ValueError("Expecting integer or string domain id.")
        domain = self.ufl_domain()
        if domain is None:
            ds = extract_domains(integrand)
            if len(ds) != 1:
                raise ValueError("This integral is missing an integration domain.")
            domain = ds[0]
        return Form([Integral(integrand=integrand, integral_type=self.integral_type(), domain=domain,
                              subdomain_id=subdomain_id, metadata=self.metadata(),
                              subdomain_data=self.subdomain_data())])

    def __str__(self):
        name = integral_type_to_measure_name[self._integral_type]
        args = []
        if self._subdomain_id is not None:
            args.append(f"subdomain_id={self._subdomain_id}")
        if self._domain is not None:
            args.append(f"domain={self._domain}")
        if self._metadata:
            args.append(f"metadata={self._metadata}")
        if self._subdomain_data is not None:
            args.append(f"subdomain_data={self._subdomain_data}")
        return f"{name}({', '.join(args)})"

    def __repr__(self):
        d = ", ".join(f"{k}={v!r}" for k, v in (
            ("subdomain_id", self._subdomain_id), ("domain", self._domain), ("metadata", self._metadata),
            ("subdomain_data", self._subdomain_data)) if v)
        return f"{type(self).__name__}({self._integral_type!r}, {d})"

    def __hash__(self):
        return hash((self._integral_type, self._subdomain_id, hash(self._domain), metadata_hashdata(self._metadata),
                     id_or_none(self._subdomain_data)))

    def __eq__(self, other):
        return (isinstance(other, Measure) and self._integral_type == other._integral_type
                and self._subdomain_id == other._subdomain_id and self._domain == other._domain
                and id_or_none(self._subdomain_data) == id_or_none(other._subdomain_data)
                and metadata_equal(self._metadata, other._metadata))


class MeasureSum:
    def __init__(self, *m):
        self._measures = m

    def __rmul__(self, o):
        return sum((o * m for m in self._measures))

    def __add__(self, o):
        return MeasureSum(*self._measures, *(o._measures if isinstance(o, MeasureSum) else (o,)))
