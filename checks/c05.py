from lib import geo


def run(ctx):
    ctx.rule = "distinct (rule, dimension, property of the rule)"
    ctx.assumptions = ["reference Gauss rules computed in long double; tanh-sinh tables checked for the structure of that rule"]
    geo.check(ctx, "geo_quad", [("tables", 0, 1), ("rules", 500, 8)])
