def run(ctx):
    ctx.rule = "distinct (query, mesh or index class: dimension, degree, active cells, ranks, type)"
    ctx.assumptions = ["DOLFINx, MPI and scipy's KDTree are stand-ins (random renumbering, simulated partition, exact search)",
                       "index sets are asked with at least two indices per direction"]
    ctx.py_driver("m03", timeout=800, parts=ctx.scale(3, 8))
