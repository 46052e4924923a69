from lib import geo


def run(ctx):
    ctx.rule = "distinct (function kind, dimension, property) judged against the inside part of each facet, the neighbour's view, or exactly for grid-aligned planes"
    ctx.assumptions = ["points within rounding of the zero set are not judged", "the quadrature engine below the library is the Algoim stand-in (DESIGN.md); the library code above it is the real one"]
    geo.check(ctx, "geo_dom", [("fac", 75, 8), ("al_plane", 50, 1), ("al_slab", 50, 1), ("box", 40, 2)])
