import numbers

from .core.expr import Argument, Coefficient, Constant


def _sorted_integrals(integrals):
    """ufl.form._sorted_integrals"""
    groups = {}
    for i in integrals:
        groups.setdefault(i.ufl_domain(), {}).setdefault(i.integral_type(), {}).setdefault(i.subdomain_id(), []).append(i)

    def keyfunc(item):
        if isinstance(item, numbers.Integral):
            return (type(item).__name__, item)
        return (type(item).__name__, tuple(-1 if i == "otherwise" else i for i in item))

    out = []
    for d in sorted(groups, key=lambda d: d.ufl_id()):
        for t in sorted(groups[d]):
            for sid in sorted(groups[d][t], key=keyfunc):
                out.extend(groups[d][t][sid])
    return tuple(out)


class BaseForm:
    pass


class Form(BaseForm):
    """As ufl.form.Form."""

    def __init__(self, integrals):
        self._integrals = _sorted_integrals(integrals)
        self._subdomain_data = None

    def integrals(self):
        return self._integrals

    def integrals_by_type(self, t):
        return tuple(i for i in self._integrals if i.integral_type() == t)

    def empty(self):
        return len(self._integrals) == 0

    def _terms(self, cls):
        out = []
        for i in self._integrals:
            for t in i.integrand().terminals():
                if isinstance(t, cls) and t not in out:
                    out.append(t)
        return out

    def arguments(self):
        return tuple(sorted(self._terms(Argument), key=lambda a: a.number()))

    def coefficients(self):
        return tuple(sorted(self._terms(Coefficient), key=lambda a: a._count))

    def constants(self):
        return tuple(sorted(self._terms(Constant), key=lambda a: a._count))

    def ufl_domains(self):
        out = []
        for i in self._integrals:
            if i.ufl_domain() not in out:
                out.append(i.ufl_domain())
        return tuple(out)

    def subdomain_data(self):
        if self._subdomain_data is None:
            sd = {d: {} for d in self.ufl_domains()}
            for i in self._integrals:
                lst = sd[i.ufl_domain()].setdefault(i.integral_type(), [])
                lst.append(i.subdomain_data())
            self._subdomain_data = sd
        return self._subdomain_data

    def signature(self):
        """As ufl.algorithms.signature.compute_form_signature: terminals enter with the
        data they give themselves, numbered within the form."""
        import hashlib
        ren = {}
        for group in (self.ufl_domains(), self.coefficients(), self.constants()):
            for n, t in enumerate(group):
                ren[t] = n

        def expr(e):
            if e.ufl_operands:
                return (type(e).__name__, getattr(e, "_i", None), *[expr(o) for o in e.ufl_operands])
            return e._ufl_signature_data_(ren)

        data = [(expr(i.integrand()), i.ufl_domain()._ufl_signature_data_(ren), i.integral_type(), i.subdomain_id(),
                 sorted((k, str(v)) for k, v in i.metadata().items())) for i in self._integrals]
        return hashlib.sha512(str(data).encode()).hexdigest()

    def __add__(self, o):
        if isinstance(o, Form):
            return Form(self._integrals + o._integrals)
        if o == 0:
            return self
        return NotImplemented

    def __radd__(self, o):
        return self if o == 0 else NotImplemented

    def __neg__(self):
        return -1 * self

    def __rmul__(self, s):
        return Form([i.reconstruct(s * i.integrand()) for i in self._integrals])

    def __sub__(self, o):
        return self + (-o)
