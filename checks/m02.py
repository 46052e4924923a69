def run(ctx):
    ctx.rule = "distinct (map, dimension, degree, aspect: permutation, location of every entity, inverse)"
    ctx.assumptions = ["basix gives DOLFINx's numbering; VTK's (>= 9.1) is restated in the driver"]
    ctx.py_driver("m02", timeout=600)
