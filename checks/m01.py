def run(ctx):
    ctx.rule = "distinct (operation, operand class: dtype, duplicates, sizes; mesh class: dimension, degree, active cells, ranks)"
    ctx.assumptions = ["DOLFINx is a stand-in mesh with random renumbering and a simulated partition"]
    ctx.py_driver("m01", timeout=700, parts=ctx.scale(2, 8))
