def run(ctx):
    ctx.rule = "distinct (query, dimension, active cells, ranks, empty or not, first or repeated)"
    ctx.assumptions = ["DOLFINx and MPI are stand-ins (random renumbering, simulated partition)",
                       "the C++ classification is replaced by a random table of admissible statuses"]
    ctx.py_driver("m04", timeout=800, parts=ctx.scale(3, 8))
