from lib import geo


def run(ctx):
    ctx.rule = "distinct (operation, dimension) compared with the definition of the map or reference system"
    ctx.assumptions = ["maps with |det| >= 0.05 scale^dim, axes of norm 1e-7 to 1e7 and at least 1e-3 rad apart"]
    geo.check(ctx, "geo_affine", [("map", 4000, 8), ("built", 4000, 4), ("sys", 4000, 4)])
