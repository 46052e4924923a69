"""K03: what a kernel finds when it follows the offset stored for an entity.

The reader walks the raw memory of the packed array as a generated kernel does and the
oracle is the (recognisable) quadrature of that very entity."""
import types

import basix
import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import qugar.cpp as stub  # noqa
from dolfinx.cpp.fem import _IntegralType as IT  # noqa
from ffcx.ir.representationutils import QuadratureRule  # noqa
from qugar.dolfinx.custom_coefficients import CustomCoeffsPacker  # noqa
from qugar.dolfinx.integral_data import IntegralData  # noqa
from qugar.dolfinx.quadrature_data import QuadratureData  # noqa
from drivers import meshes  # noqa
from drivers.world import World, build, npd  # noqa

rng = mon.nprng("k03")
I32 = np.int32
TYPES = ["cell", "exterior_facet", "interior_facet"]
REAL = {"float32": np.float32, "float64": np.float64, "complex64": np.float32, "complex128": np.float64}


def onto_cell(p, lf, dim):
    """facet point -> cell point, by the vertices of the facet"""
    d, s = None, None
    ct = [basix.CellType.quadrilateral, basix.CellType.hexahedron][dim - 2]
    v = basix.geometry(ct)[basix.topology(ct)[-2][lf]]
    for k in range(dim):
        if np.ptp(v[:, k]) == 0:
            d, s = k, v[0, k]
    return np.insert(p, d, s, axis=1)


def permute(p, perm):
    """FFCx: rotations, then reflection"""
    rot, ref = divmod(int(perm), 2)
    if p.shape[1] == 1:
        return 1 - p if perm else p
    for _ in range(rot):
        p = np.stack([p[:, 1], 1 - p[:, 0]], axis=1)
    return p[:, ::-1] if ref else p


def quad_data(n, unf):
    out, seen = [], set()
    top = int(rng.choice([2, 8]))
    while len(out) < n:
        deg = int(rng.integers(0, top))
        kind = bool(unf and rng.random() < 0.6)
        # rules of the same degree: the boundary and the volume, or other (static) points
        if deg in seen and rng.random() < 0.5:
            continue
        seen.add(deg)
        r = QuadratureRule(rng.random((deg + 1, 2)), np.ones(deg + 1))
        hash(r)
        out.append(QuadratureData(r.id(), deg, kind, r))
    return out


class FakeForm:
    """what the packer uses of a DOLFINx form"""

    def __init__(self, mesh, dtype, integrals):
        # integrals: (type, subdomain id, domain, cstride)
        self.dtype, self.integrals = dtype, integrals
        self._cpp_object = self
        self.mesh = mesh
        ids = [i for t in ("cell", "exterior_facet", "interior_facet", "vertex", "ridge") for i in integrals if i[0] == t]
        off = np.cumsum([0] + [sum(i[0] == t for i in integrals) for t in ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")])
        self._ufcx_form = types.SimpleNamespace(form_integral_offsets=[int(o) for o in off], form_integral_ids=[i[1] for i in ids])
        self.keys = {}
        for t in TYPES:
            for k, i in enumerate([i for i in ids if i[0] == t]):
                self.keys[IT[t], k] = i
        self.refresh()

    def refresh(self):
        self.vals = {}
        for key, (t, _, dom, cs) in self.keys.items():
            rows = len(dom) * (2 if t == "interior_facet" else 1) if cs else 0
            v = rng.normal(size=(rows, cs))
            if self.dtype.kind == "c":
                v = v + 1j * rng.normal(size=(rows, cs))
            self.vals[key] = v.astype(self.dtype)

    def packed(self):
        return {k: v.copy() for k, v in self.vals.items()}

    def domains(self, t, k):
        return self.keys[t, k][2].copy()


def some(seq, empty_ok=True):
    seq = sorted(seq)
    k = int(rng.integers(0 if empty_ok else min(1, len(seq)), len(seq) + 1)) if rng.random() < 0.6 else len(seq)
    return [seq[int(j)] for j in sorted(rng.permutation(len(seq))[:k])] if rng.random() < 0.7 else \
        [seq[int(j)] for j in rng.permutation(len(seq))[:k]]


def domain(w, t):
    if t == "cell":
        return np.array(some(range(w.nloc)), dtype=I32)
    if t == "exterior_facet":
        src = w.ext if rng.random() < 0.5 else w.all
        return np.array(some(src), dtype=I32).reshape(-1, 2)
    twos = [p for p in meshes.facet_pairs(w.mesh).values() if len(p) == 2 and p[0] in w.int]
    out = [p if rng.random() < 0.5 else p[::-1] for p in some(twos)]
    return np.array(out, dtype=I32).reshape(-1, 2, 2)


def follow(form, key, arr, dt, real, cls, D, w, data, tag):
    """reads the array as the kernel does"""
    t, sid, dom, cs = form.keys[key]
    sides = 2 if t == "interior_facet" else 1
    cols = arr.shape[1]
    mon.check(arr.dtype == dt and arr.flags.c_contiguous and arr.ndim == 2 and arr.shape[0] >= sides * len(dom), tag + "/array",
              lambda: f"{arr.dtype} {arr.shape} for {len(dom)} entities", D, f"array/{cls}")
    raw = arr.view(np.uint8).reshape(-1)
    n_old = sides * cs
    old = form.vals[key].reshape(len(dom) if n_old else 0, n_old)
    block = sides * cols * dt.itemsize
    rsize = real.itemsize
    perms = w.mesh.topology
    perms.create_entity_permutations()
    perms = perms.get_facet_permutations().reshape(-1, 2 * w.d)
    ext = t == "exterior_facet"
    sets = {}
    if t != "cell":
        sets = {k: w.facets(k, ext) for k in ("cut", "full", "empty")}
    for e in range(len(dom)):
        at = e * block
        if n_old:
            mine = raw[at: at + n_old * dt.itemsize].view(dt)
            mon.check(np.array_equal(mine, old[e]), f"{tag}/{t}/coefficients", lambda: f"entity {e}: {mine} != {old[e]}", D, f"coeffs/{cls}/{tag}")
        off = int(raw[at + n_old * dt.itemsize:][:8].view(np.intp)[0])
        if t == "cell":
            ent = int(dom[e])
            state = w.dom.cells[w.lex[ent]]
        else:
            ent = tuple(int(x) for x in (dom[e] if ext else dom[e, 0]))
            state = "cut" if ent in sets["cut"] else "empty" if ent in sets["empty"] else "full"
        flag = "cut" if off > 0 else "full" if off < 0 else "empty"
        if not mon.check(flag == state, f"{tag}/{t}/flag", lambda: f"entity {e} {ent} is {state}, offset {off}", D, f"flag/{cls}/{state}"):
            continue
        if state != "cut":
            continue
        pos = at + off * rsize

        def take(n):
            nonlocal pos
            if n < 0 or pos < len(dom) * block or pos + n * rsize > raw.size:
                raise IndexError(f"entity {e}: reads {n} values at byte {pos} of {raw.size} (data starts at {len(dom) * block})")
            v = raw[pos: pos + n * rsize].view(real)
            pos += n * rsize
            return v

        for q in data.quad_data_FE_tables:
            n_dir = npd(q.degree)
            if t == "cell":
                kind = "unf" if q.unfitted_boundary else "cell"
                x, wt, nr = stub.entity_points(kind, state, int(w.lex[ent]), -1, n_dir, w.d)
                want = [x]
            else:
                x, wt, nr = w.facet_points(ent, ext, n_dir)
                want = [onto_cell(x, ent[1], w.d)]
                if not ext:
                    want.append(onto_cell(x, int(dom[e, 1, 1]), w.d))
            what = f"{tag}/{t}{'/unf' if q.unfitted_boundary else ''}{'/mixed' if data.is_mixed_dim else ''}"
            try:
                n = float(take(1)[0])
                if n != len(wt):
                    mon.bad(what + "/count", f"entity {e}: {n} points, expected {len(wt)}", D)
                    break
                n = int(n)
                got = [take(n * w.d).reshape(n, w.d) for _ in want]
                fac = take(n * (w.d - 1)).reshape(n, w.d - 1) if data.is_mixed_dim else None
                gw = take(n)
                gn = take(n * w.d).reshape(n, w.d) if q.unfitted_boundary else None
            except IndexError as ex:
                mon.bad(what + "/bounds", str(ex), D)
                break
            tol = 1e-6 if real == np.float32 else 1e-14
            for s, (g, x_) in enumerate(zip(got, want)):
                mon.check(np.abs(g - x_).max(initial=0.0) <= tol, f"{what}/points{s}",
                          lambda: f"entity {e} {dom[e].tolist()}: {g[:3]} expected {x_[:3]}", D, f"points/{cls}/{min(n, 3)}/{perms[ent] if t != 'cell' else ''}")
            mon.check(np.array_equal(gw, wt.astype(real)), what + "/weights", lambda: f"entity {e}: {gw[:4]} expected {wt[:4]}", D, f"weights/{cls}/{min(n, 3)}")
            if fac is not None:
                again = onto_cell(permute(fac, perms[ent]), ent[1], w.d)
                mon.check(np.abs(again - want[0]).max(initial=0.0) <= 2 * tol, what + "/facet-points",
                          lambda: f"entity {e}: {fac[:3]} with permutation {perms[ent]} gives {again[:3]}, expected {want[0][:3]}", D,
                          f"facet-points/{cls}/{perms[ent]}")
            if gn is not None:
                mon.check(np.array_equal(gn, nr.astype(real)), what + "/normals", lambda: f"entity {e}: {gn[:3]} expected {nr[:3]}", D, f"normals/{cls}/{min(n, 3)}")


def one(i):
    case = build(rng, i, ranks=(1, 1, 1, 2))
    rank = int(rng.integers(len(case.meshes)))
    m = case.meshes[rank]
    w = World(m, case.breaks, m.cpp_unf_domain_object)
    name = ["float64", "float32", "complex128", "complex64"][int(rng.integers(4))]
    dt, real = np.dtype(name), np.dtype(REAL[name])
    cs = int(rng.choice([0, 0, 1, 2, 3, 6]))
    types_ = some(TYPES, False) if rng.random() < 0.7 else [TYPES[int(rng.integers(3))]]
    integrals, datas = [], {}
    for t in types_:
        sids = sorted(rng.choice([-1, 0, 1, 2, 5, 9], size=int(rng.integers(1, 4)), replace=False).tolist())
        groups = [sids] if rng.random() < 0.3 else [[s] for s in sids]
        for g in groups:
            mixed = bool(t == "exterior_facet" and rng.random() < 0.35)
            qs = quad_data(int(rng.integers(1, 4)), t == "cell" and rng.random() < 0.6)
            tabs = {q: [types.SimpleNamespace(dtype=real.type, name=f"FE{k}_C0_Q{q.name}")] for k, q in enumerate(qs)}
            d = IntegralData(f"i{len(datas)}", g, t, w.d, mixed, tabs)
            for s in g:
                datas[t, s] = d
        integrals += [(t, s, domain(w, t), cs) for s in sids]
    data_list = list({id(d): d for d in datas.values()}.values())
    data_list = [data_list[int(k)] for k in rng.permutation(len(data_list))]
    D = dict(case.describe(), seed=case.seed, how=case.how, rank=rank, dtype=name, cstride=cs,
             integrals=[(a, b, c.tolist(), d) for a, b, c, d in integrals], exclude=case.exclude,
             quads={f"{t}/{s}": [(q.degree, q.unfitted_boundary) for q in d.quad_data_FE_tables] for (t, s), d in datas.items()})
    with mon.case("pack", D):
        form = FakeForm(m, dt, integrals)
        packer = CustomCoeffsPacker(form, m, data_list)
        co = packer.pack_coefficients()
        if not mon.check(set(co) == set(form.keys), "pack/keys", lambda: f"{sorted(co)} != {sorted(form.keys)}", D, f"keys/{len(co)}"):
            return

        def all_(tag):
            for key, (t, s, dom, _) in form.keys.items():
                d = datas[t, s]
                cls = f"{t}/{w.d}D/{name}/{'c' if cs else '-'}/{len(d.quad_data_FE_tables)}{'m' if d.is_mixed_dim else ''}"
                follow(form, key, co[key], dt, real, cls, dict(D, key=str(key)), w, d, tag)

        all_("pack")
        for _ in range(int(rng.integers(0, 3))):
            form.refresh()
            co = packer.update_coefficients(co)
            if not mon.check(set(co) == set(form.keys), "update/keys", "", D, f"update-keys/{len(co)}"):
                return
            all_("update")
        # packing again gives the same as the first time, from a fresh object too
        again = CustomCoeffsPacker(form, m, data_list[::-1]).pack_coefficients()
        for k in co:
            mon.check(again[k].tobytes() == co[k].tobytes(), "again/bytes", f"{k}", D, f"again/{form.keys[k][0]}/{name}")


def main():
    for i in range(mon.scale(250, 1500)):
        with mon.case("k03"):
            stub.calls.clear()
            one(i)


main()
mon.done()
