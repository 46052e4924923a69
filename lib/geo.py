"""Building the native library (with the Algoim stand-in) and a driver, per configuration."""
import concurrent.futures as cf
import glob, os
from lib import core, cxx, native

STUBS = os.path.join(core.VERIF, "stubs/algoim")
BASE = ["-std=gnu++20", "-g1", "-fPIC", "-w", "-pthread", f"-I{core.REPO}/cpp/include", f"-I{STUBS}", f"-I{core.VERIF}/cpp"]
CFG = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "vg": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
}


def sources():
    return sorted(glob.glob(os.path.join(core.REPO, "cpp/qugar/*.cpp")))


def build(driver, cfg="asan", jobs=8):
    flags = BASE + CFG[cfg]
    drv = os.path.join(core.VERIF, "cpp", driver + ".cpp")
    objs = cxx.compile_many([drv, *sources()], flags, jobs=jobs)
    return cxx.link(objs, CFG[cfg] + ["-pthread"], f"{driver}_{cfg}")


def prebuild(specs, jobs=8):
    """Compiles everything several (driver, configuration) pairs need in one pool, what
    takes longest first."""
    slow = ["geo_poly", "geo_reparam", "impl_unfitted_domain", "bezier_tp.", "geo_dom", "monomials_tp", "geo_seq", "impl_quadrature",
            "impl_reparam", "geo_grid", "geo_funcs", "reparam_mesh", "bezier_tp"]
    todo = {(src, cfg) for drv, cfg in specs for src in [os.path.join(core.VERIF, "cpp", drv + ".cpp"), *sources()]}
    rank = lambda t: (t[1] != "asan", next((i for i, n in enumerate(slow) if n in t[0]), len(slow)), t)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda t: cxx.compile_obj(t[0], BASE + CFG[t[1]]), sorted(todo, key=rank)))


def check(ctx, driver, sections, cfg="asan", timeout=800, key=None):
    """sections: (name, cases per process, processes) for the quick tier; the thorough
    tier runs many more processes with other seeds."""
    exe = build(driver, cfg)
    k = ctx.scale(1, 12)
    jobs = []
    for name, n, procs in sections:
        for i in range(procs * (k if n else 1)):
            jobs.append((f"{driver} {name}", exe, [name, ctx.seed * 1000 + i, n]))
    if ctx.replay and ctx.replay.get("data"):
        d = ctx.replay["data"]
        jobs = [(d["label"], exe, d["args"])]
    return native.run_many(ctx, jobs, timeout=timeout)
