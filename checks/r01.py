def run(ctx):
    ctx.rule = "distinct (kind of exported data, dimension, degree, active cells, C++ or DOLFINx domain)"
    ctx.assumptions = ["PyVista, DOLFINx and the C++ extension are stand-ins; the order in which VTK extracts edges and faces of pixels "
                       "and voxels is taken from VTK's sources", "single process: the code does not support others here"]
    ctx.py_driver("r01", timeout=800, parts=ctx.scale(3, 8))
