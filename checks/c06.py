from lib import geo


def run(ctx):
    ctx.rule = "distinct (function, dimension, property) compared with geometry, finite differences, periods or sampled points of an interval"
    ctx.assumptions = ["points where the function is not smooth (ties of the square) are skipped for derivatives",
                       "interval arithmetic is the Algoim stand-in's first-order interval; library code on top of it is the real one"]
    geo.check(ctx, "geo_funcs", [("prim", 150, 4), ("tpms", 300, 2), ("comb", 400, 2)])
