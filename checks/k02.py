from checks.k01 import sanitized


def run(ctx):
    ctx.rule = "distinct (full or empty, integral type, cell, scalar type, rank, rules, unfitted or mixed) compared bit by bit with the original kernel"
    ctx.assumptions = ["the form compiler is a stand-in writing kernels in its layout (tables, loops, sections)"]
    sanitized(ctx, "standard", 8)
