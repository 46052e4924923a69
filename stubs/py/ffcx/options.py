DEFAULTS = {"epsilon": 1e-14, "language": "C", "scalar_type": "float64", "sum_factorization": False, "table_rtol": 1e-6,
            "table_atol": 1e-9, "verbosity": 30, "part": "full"}


def get_options(priority_options=None):
    o = dict(DEFAULTS)
    if priority_options is not None:
        o.update(priority_options)
    return o
