from lib import geo


def run(ctx):
    ctx.rule = "distinct (operation, property, dimension and range) compared with the same operation on values computed in long double"
    ctx.assumptions = ["degrees 0 to 7 per direction, points in [-0.2,1.2]; rescaling to boxes within [0,1.2]",
                       "create_derivative along a direction of degree 0 is documented to return a clone and is not judged"]
    geo.check(ctx, "geo_poly", [("mono", 150, 4), ("bezier", 150, 4), ("compose", 300, 3), ("basis", 5000, 1)])
