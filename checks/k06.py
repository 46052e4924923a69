def run(ctx):
    ctx.rule = "distinct (problem, operation and those before it, boundary conditions, options)"
    ctx.assumptions = ["PETSc and dolfinx.fem.petsc are dense stand-ins following their documentation; the coefficient packer, "
                       "that K03 checks, and the form compiler are recorders"]
    ctx.py_driver("k06", timeout=600, parts=ctx.scale(2, 8))
