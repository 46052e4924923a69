import os
from lib import core, cxx, native

SHIM = os.path.join(core.REPO, "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp")
DRV = os.path.join(core.VERIF, "cpp/shim_driver.cpp")
BASE = ["-std=c++20", "-O1", "-g", "-fPIC", "-w", f"-I{core.VENV}/include"]
LINK = [f"-L{core.VENV}/lib", "-Wl,--no-as-needed", "-lbasix", f"-Wl,-rpath,{core.VENV}/lib",
        f"-Wl,-rpath,{core.BASIX_LIBS}", f"-Wl,-rpath-link,{core.BASIX_LIBS}", "-pthread"]
CFG = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "oom": ["-fsanitize=undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DWITH_OOM"],
    "tsan": ["-fsanitize=thread"],
}


def run(ctx):
    ctx.rule = "distinct (kind of call, outcome, precision) compared with the registry model"
    ctx.assumptions = ["allocation failures are injected through operator new; the BLAS behind basix is not instrumented"]
    import concurrent.futures as cf

    def build(c):
        objs = cxx.compile_many([SHIM, DRV], BASE + CFG[c], jobs=2)
        return cxx.link(objs, CFG[c] + LINK, "shim_" + c)
    with cf.ThreadPoolExecutor(3) as ex:
        exe = dict(zip(CFG, ex.map(build, CFG)))
    s = ctx.seed * 1000
    k = ctx.scale(1, 8)
    jobs = [("asan ops", exe["asan"], ["ops", s + i, 20000]) for i in range(8 * k)]
    jobs += [("oom faults", exe["oom"], ["oom", s + i, 30000]) for i in range(8 * k)]
    jobs += [("tsan threads", exe["tsan"], ["thr", s + i, 25]) for i in range(4 * k)]
    if ctx.replay and ctx.replay.get("data"):
        d = ctx.replay["data"]
        jobs = [(d["label"], exe[d["label"].split()[0]], d["args"])]
    native.run_many(ctx, jobs, timeout=600)
