def run(ctx):
    ctx.rule = "distinct (gate, position of the version relative to each bound and the component deciding it)"
    ctx.py_driver("v01", timeout=300)
