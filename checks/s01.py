def run(ctx):
    ctx.rule = "distinct (element family, cell, degree, derivatives, precision) whose tabulation was compared with basix"
    ctx.assumptions = ["basix of the venv is the reference; degree is capped at 6/4/3 in 1/2/3 dimensions"]
    ctx.py_driver("s01", timeout=700, parts=ctx.scale(4, 8))
