from lib import geo


def run(ctx):
    ctx.rule = "distinct (function kind, dimension, property) judged against the level set, its gradient and the divergence theorem in each cut cell, or exactly for grid-aligned planes"
    ctx.assumptions = ["points within rounding of the zero set are not judged", "the quadrature engine below the library is the Algoim stand-in (DESIGN.md); the library code above it is the real one"]
    geo.check(ctx, "geo_dom", [("bnd", 110, 6), ("al_plane", 50, 1), ("al_slab", 50, 1)])
