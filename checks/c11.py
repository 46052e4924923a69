import os, shutil
from lib import core, geo, native

# Everything the other checks run, with other seeds; here only what the sanitizers, the
# library's own assertions and escaping exceptions say counts.
OTHERS = [("geo_dom", [("part", 80, 2), ("vol", 25, 2), ("bnd", 25, 2), ("fac", 15, 2), ("al_plane", 15, 1), ("al_slab", 15, 1), ("box", 10, 1)]),
          ("geo_reparam", [("solid", 6, 2), ("surf", 6, 2), ("direct", 6, 2), ("facet", 10, 2), ("api", 80, 2)]),
          ("geo_quad", [("rules", 200, 1)]),
          ("geo_funcs", [("prim", 80, 1), ("tpms", 100, 1), ("comb", 100, 1)]),
          ("geo_poly", [("mono", 60, 1), ("bezier", 60, 1), ("compose", 100, 1), ("basis", 1000, 1)]),
          ("geo_affine", [("map", 1500, 1), ("built", 1500, 1), ("sys", 1500, 1)]),
          ("geo_grid", [("idx", 80, 1), ("rng", 500, 1), ("grid", 300, 1), ("big", 100, 1), ("box", 800, 1)])]
QUIET = {"MON_CRASH_ONLY": "1"}


def run(ctx):
    ctx.rule = "distinct (kind of object, question, way of asking it again), number of threads, and classes seen by the other drivers"
    ctx.assumptions = ["Algoim stand-in", "uninitialised memory is watched by valgrind on a small share of the runs",
                       "threads work on objects of their own"]
    k = ctx.scale(1, 12)
    if ctx.replay and ctx.replay.get("data"):
        d = ctx.replay["data"]
        a = list(d["args"])
        drv, cfg = d["label"].split()[:2]
        env = {} if drv == "geo_seq" else QUIET
        exe = geo.build(drv, cfg)
        if cfg == "vg":
            exe, a = shutil.which("valgrind"), a[:2] + [exe] + a[3:]
        native.run_many(ctx, [(d["label"], exe, a, env)], timeout=800)
        return
    jobs = []

    def add(drv, cfg, sec, n, procs, env=None, base=0):
        exe = geo.build(drv, cfg)
        for i in range(procs * k):
            args = [sec, ctx.seed * 1000 + base + i, n]
            if cfg == "vg":
                jobs.append((f"{drv} {cfg} {sec}", shutil.which("valgrind"), ["-q", "--error-exitcode=78", exe, *args], env or {}))
            else:
                jobs.append((f"{drv} {cfg} {sec}", exe, args, env or {}))

    vg = shutil.which("valgrind")
    geo.prebuild([("geo_seq", "asan"), ("geo_seq", "tsan")] + [("geo_seq", "vg")] * bool(vg) + [(d, "asan") for d, _ in OTHERS])
    add("geo_seq", "tsan", "threads", 8, 8)
    add("geo_seq", "asan", "repeat", 30, 8)
    add("geo_seq", "asan", "tree", 400, 4)
    if vg:
        add("geo_seq", "vg", "repeat", 3, 6, base=500)
        add("geo_seq", "vg", "tree", 20, 1, base=500)
    for drv, secs in OTHERS:
        for sec, n, procs in secs:
            add(drv, "asan", sec, n, procs, QUIET, base=700)
    native.run_many(ctx, jobs, timeout=800)
