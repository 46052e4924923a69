from lib import geo


def run(ctx):
    ctx.rule = "distinct (function kind, dimension, property) judged against moments of the inside part computed by an own recursive integration, or exactly for planes"
    ctx.assumptions = ["points within rounding of the zero set are not judged", "the quadrature engine below the library is the Algoim stand-in (DESIGN.md); the library code above it is the real one"]
    geo.check(ctx, "geo_dom", [("vol", 110, 8)])
