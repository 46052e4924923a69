from .protocols import id_or_none


class Integral:
    """As ufl.integral.Integral."""

    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data, extra_domain_integral_type_map=None):
        from .core.expr import Expr
        if not isinstance(integrand, Expr):
            raise ValueError("Expecting integrand to be an Expr instance.")
        if not isinstance(metadata, dict):
            raise TypeError("metadata")
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None,
                    subdomain_data=None):
        return Integral(
            self._integrand if integrand is None else integrand,
            self._integral_type if integral_type is None else integral_type,
            self._ufl_domain if domain is None else domain,
            self._subdomain_id if subdomain_id is None else subdomain_id,
            self._metadata if metadata is None else metadata,
            self._subdomain_data if subdomain_data is None else subdomain_data)

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def __eq__(self, o):
        return (isinstance(o, Integral) and self._integral_type == o._integral_type
                and self._ufl_domain == o._ufl_domain and self._subdomain_id == o._subdomain_id
                and self._integrand == o._integrand and self._metadata == o._metadata
                and id_or_none(self._subdomain_data) == id_or_none(o._subdomain_data))

    def __hash__(self):
        return hash((hash(self._integrand), self._integral_type, hash(self._ufl_domain), self._subdomain_id,
                     id_or_none(self._subdomain_data)))
