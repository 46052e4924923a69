def run(ctx):
    ctx.rule = "distinct (family of nearly equal forms, number of forms, cache, built or found, fault, processes)"
    ctx.assumptions = ["cffi, FFCx and UFL's signatures are stand-ins; the code generator writes down what it was asked for (K01, K02 judge the code itself)"]
    ctx.py_driver("k07", timeout=600, parts=ctx.scale(4, 8))
