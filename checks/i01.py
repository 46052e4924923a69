def run(ctx):
    ctx.rule = "distinct (factory, optional arguments given, dimension, observation) and (operation) and (refused argument)"
    ctx.assumptions = ["the compiled extension is replaced by closed forms in numpy with the names, argument names, overloads "
                       "and conversions of its wrappers (the functions of the library themselves are C06's business)"]
    ctx.py_driver("i01", timeout=300, parts=ctx.scale(2, 6))
