def run(ctx):
    ctx.rule = "distinct (cell type, facets in the call, permutation, point set shape)"
    ctx.assumptions = ["DOLFINx is a stand-in: facet permutations (2 * rotations + reflections with respect to the "
                       "lowest global vertex) and the FFCx permutation rules are restated in the driver"]
    ctx.py_driver("k04", timeout=600, parts=ctx.scale(2, 6))
