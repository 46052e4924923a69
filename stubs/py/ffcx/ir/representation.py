class IntegralIR:
    def __init__(self, expression, rank=0, enabled_coefficients=(), **k):
        self.expression, self.rank, self.enabled_coefficients = expression, rank, enabled_coefficients
        self.__dict__.update(k)


class DataIR:
    def __init__(self, integrals=(), forms=(), expressions=()):
        self.integrals, self.forms, self.expressions = list(integrals), list(forms), list(expressions)


def compute_ir(analysis, object_names, prefix, options, visualise=False):
    raise NotImplementedError("stub: compute_ir")
