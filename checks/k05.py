def run(ctx):
    ctx.rule = "distinct (what was compared, cell type, kind of id / data, sizes)"
    ctx.assumptions = ["UFL and DOLFINx are stand-ins: UFL's expressions, measures and forms are restated (expressions "
                       "evaluate numerically); the form compiler is a recorder"]
    ctx.py_driver("k05", timeout=600, parts=ctx.scale(3, 8))
