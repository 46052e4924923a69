"""S01: tabulation through the shim's C interface against basix' own Python tabulation."""
import ctypes, importlib.util, itertools, os, shutil, sys, tempfile
import numpy as np
import basix
from drivers.mon import REPO, Monitor

M = Monitor()

tmp = tempfile.mkdtemp(prefix="vq_s01_")
os.environ["QUGAR_SHIM_CACHE"] = tmp
try:
    spec = importlib.util.spec_from_file_location(
        "shim_s01", os.path.join(REPO, "python/qugar/dolfinx/_shim/__init__.py"))
    S = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(S)
    cache, name = S.ensure_built()
    lib = ctypes.CDLL(os.path.join(str(cache), f"lib{name}.so"), mode=os.RTLD_NOW)
finally:
    shutil.rmtree(tmp, ignore_errors=True)

SUF = {np.float64: "f64", np.float32: "f32"}
CT = {np.float64: ctypes.c_double, np.float32: ctypes.c_float}
for dt, suf in SUF.items():
    P = ctypes.POINTER(CT[dt])
    f = getattr(lib, "qugar_register_element_" + suf)
    f.argtypes, f.restype = [ctypes.c_int] * 6, ctypes.c_int
    f = getattr(lib, "qugar_tabulate_shape_" + suf)
    f.argtypes, f.restype = [ctypes.c_int] * 3 + [ctypes.POINTER(ctypes.c_long)], ctypes.c_int
    f = getattr(lib, "qugar_tabulate_" + suf)
    f.argtypes, f.restype = [ctypes.c_int, ctypes.c_int, P, ctypes.c_int, ctypes.c_int, P, ctypes.c_long], ctypes.c_int

EF, CTp, LV, DV = basix.ElementFamily, basix.CellType, basix.LagrangeVariant, basix.DPCVariant
TDIM = {CTp.interval: 1, CTp.triangle: 2, CTp.quadrilateral: 2, CTp.tetrahedron: 3, CTp.hexahedron: 3, CTp.prism: 3,
        CTp.pyramid: 3, CTp.point: 0}
LVS = [x for x in LV.__members__.values()] if hasattr(LV, "__members__") else list(LV)
DVS = [x for x in DV.__members__.values()] if hasattr(DV, "__members__") else list(DV)
FAMS = [x for x in (EF.__members__.values() if hasattr(EF, "__members__") else EF) if x.name != "custom"]
CELLS = [c for c in TDIM if c != CTp.point]
maxdeg = M.scale({1: 6, 2: 4, 3: 3}, {1: 12, 2: 7, 3: 5})

allp = []
for fam, cell in itertools.product(FAMS, CELLS):
    for deg in range(-1, maxdeg[TDIM[cell]] + 1):
        for lv, dv, disc in itertools.product(LVS, DVS, (False, True)):
            allp.append((fam, cell, deg, lv, dv, disc))
M.rng.shuffle(allp)
allp = allp[M.part::M.parts]
budget_el = M.scale(900, 6000)
# favour accepted elements: a refused one costs nothing, so just go on until enough
import time
t_end = time.time() + M.scale(40, 400)


class El:
    pass


live = []                                       # accepted elements with handles
handles = {np.float64: {}, np.float32: {}}      # params -> handle
sizes = {np.float64: 0, np.float32: 0}


def reg(dt, p):
    fam, cell, deg, lv, dv, disc = p
    return getattr(lib, "qugar_register_element_" + SUF[dt])(int(fam), int(cell), deg, int(lv), int(dv), int(disc))


def pname(p, dt):
    fam, cell, deg, lv, dv, disc = p
    return f"{fam.name}/{cell.name}/d{deg}/{lv.name}/{dv.name}/{'disc' if disc else 'cont'}/{SUF[dt]}"


def size_check(what):
    for dt in SUF:
        got = getattr(lib, "qugar_registry_size_" + SUF[dt])()
        M.check(got == sizes[dt], "registry-size", f"{SUF[dt]} registry holds {got} elements after {what}, "
                f"{sizes[dt]} distinct ones were accepted", what, cls=f"size/{SUF[dt]}")


def tab(dt, p, el, h):
    tdim = TDIM[p[1]]
    nd = M.rng.choice([0, 0, 1, 1, 2, 3])
    npts = M.rng.choice([1, 1, 2, 3, 5, 9, 17, 0])
    g = M.nprng(len(live), M.n)
    x = g.random((npts, tdim))
    if p[1] not in (CTp.interval, CTp.quadrilateral, CTp.hexahedron):
        x = x / tdim * .9
    if M.rng.random() < .2 and npts:
        x[0] = M.rng.choice([0., .5])
    if M.rng.random() < .1:
        x = x * 3 - 1                            # outside the cell: still defined
    x = np.ascontiguousarray(x.astype(dt))
    try:
        ref = np.asarray(el.tabulate(nd, x)) if npts else None
    except Exception:
        M.count("basix refused tabulation")
        return
    out4 = (ctypes.c_long * 4)(*[-7] * 4)
    rc = getattr(lib, "qugar_tabulate_shape_" + SUF[dt])(h, nd, npts, out4)
    shape = tuple(out4)
    nm = pname(p, dt)
    want_shape = ref.shape if ref is not None else tuple(el.tabulate(nd, np.zeros((1, tdim), dt)).shape)
    if ref is None:
        want_shape = (want_shape[0], 0) + tuple(want_shape[2:])
    if not M.check(rc == 0 and shape == tuple(want_shape), "shape", f"{nm} nd={nd} npts={npts}: rc={rc} shape {shape}, "
                   f"basix has {want_shape}", [nm, nd, npts], cls=f"shape/{p[0].name}/{p[1].name}/nd{nd}"):
        return
    need = int(np.prod(shape))
    extra = M.rng.choice([0, 0, 1, 100])
    buf = np.full(need + extra + 8, 777.25, dt)
    P = ctypes.POINTER(CT[dt])
    xx = x.copy()
    rc = getattr(lib, "qugar_tabulate_" + SUF[dt])(h, nd, xx.ctypes.data_as(P), npts, tdim, buf.ctypes.data_as(P), need + extra)
    if not M.check(rc == 0, "tabulate-refused", f"{nm} nd={nd} npts={npts}: tabulate rc={rc}", [nm, nd, npts], cls="rc0"):
        return
    M.check(bool((buf[need:] == 777.25).all()), "overwrite", f"{nm} nd={nd} npts={npts}: wrote past the announced size",
            [nm, nd, npts], cls="tail untouched")
    M.check(bool((xx == x).all()), "points-changed", f"{nm}: the points were changed", nm, cls="points untouched")
    if ref is None:
        return
    got = buf[:need].reshape(shape)
    fin = np.isfinite(ref)                       # basix' iso elements are NaN where singular
    scale = max(1.0, float(np.abs(ref[fin]).max())) if fin.any() else 1.
    d = np.abs(got.astype(float) - ref.astype(float))[fin]
    err = float(d.max()) if d.size else 0.
    if not (np.isfinite(got) == fin).all():
        err = float("inf")
    tol = (2e-12 if dt == np.float64 else 2e-5) * scale
    M.check(err <= tol, "values", f"{nm} nd={nd} npts={npts}: differs from basix by {err:.3g} (scale {scale:.3g})",
            [nm, nd, npts, x.tolist()], cls=f"{p[0].name}/{p[1].name}/d{p[2]}/nd{nd}/{SUF[dt]}")


acc = ref_ = 0
for p in allp:
    if acc >= budget_el or time.time() > t_end:
        break
    fam, cell, deg, lv, dv, disc = p
    dts = [np.float64, np.float32]
    M.rng.shuffle(dts)
    if M.rng.random() < .5:
        dts = dts[:1]
    for dt in dts:
        try:
            el = basix.create_element(fam, cell, deg, lv, dv, disc, dtype=dt)
        except Exception:
            el = None
        h = reg(dt, p)
        if el is None:
            ref_ += 1
            M.check(h < 0, "accepted", f"{pname(p, dt)}: basix refuses it, the shim gave handle {h}", pname(p, dt),
                    cls="refused by both")
        else:
            acc += 1
            if not M.check(h >= 0, "refused", f"{pname(p, dt)}: basix accepts it, the shim answers {h}", pname(p, dt),
                           cls=f"accepted/{fam.name}/{cell.name}"):
                continue
            M.check(h not in handles[dt].values(), "handle-reused", f"{pname(p, dt)}: got handle {h} of another element",
                    pname(p, dt), cls="fresh handle")
            handles[dt][p] = h
            sizes[dt] += 1
            live.append((dt, p, el))
            tab(dt, p, el, h)
        size_check("registering " + pname(p, dt))
    # old elements, in any order, between registrations
    for _ in range(2):
        if live:
            dt, p2, el = M.rng.choice(live)
            h2 = reg(dt, p2)
            M.check(h2 == handles[dt][p2], "not-deduplicated", f"{pname(p2, dt)}: registered again gives {h2}, "
                    f"was {handles[dt][p2]}", pname(p2, dt), cls="same handle again")
            tab(dt, p2, el, handles[dt][p2])
    if len(live) > 400:
        live = live[-200:]
size_check("end")
M.count("elements accepted", acc)
M.count("parameter sets refused", ref_)
M.done()
