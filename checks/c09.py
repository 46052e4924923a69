from lib import geo


def run(ctx):
    ctx.rule = "distinct (query, dimension, kind of input) compared with a direct model of indices, grids and boxes"
    ctx.assumptions = ["tensor indices beyond memory are sampled, not enumerated"]
    geo.check(ctx, "geo_grid", [("idx", 250, 4), ("rng", 1500, 4), ("grid", 900, 8), ("big", 300, 2), ("box", 3000, 4)])
