def run(ctx):
    ctx.rule = "distinct (integral type, scalar type, cut/full/empty, coefficients or none, quadratures, mixed dimension, update)"
    ctx.assumptions = ["DOLFINx's packing is restated: one row per cell or exterior facet, two per interior facet with both sides "
                       "of each coefficient one after the other",
                       "the C++ classification and quadratures are replaced by random recognisable ones"]
    ctx.py_driver("k03", timeout=800, parts=ctx.scale(3, 8))
