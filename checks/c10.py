from lib import geo


def run(ctx):
    ctx.rule = "distinct (section, kind of function, dimension, property of the mesh)"
    ctx.assumptions = ["Algoim stand-in", "measures of curved pieces judged to the accuracy of their order",
                       "corners of squares and coarse cells whose interface turns by more than 30 degrees are judged by measure only"]
    geo.check(ctx, "geo_reparam", [("solid", 14, 24), ("surf", 14, 24), ("direct", 14, 16), ("facet", 25, 12), ("api", 300, 8)])
