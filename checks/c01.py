from lib import geo


def run(ctx):
    ctx.rule = "distinct (function kind, dimension, property) judged against values of the function sampled in every cell and facet"
    ctx.assumptions = ["points within rounding of the zero set are not judged", "the quadrature engine below the library is the Algoim stand-in (DESIGN.md); the library code above it is the real one"]
    geo.check(ctx, "geo_dom", [("part", 260, 6), ("al_plane_part", 60, 1), ("al_slab_part", 60, 1)])
