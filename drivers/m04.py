"""M04: what an unfitted mesh answers about its cells and facets.

The C++ classification is replaced by a random but admissible one (stubs/py/
qugar_cpp_stub.py); the oracle computes every set from that table, the grid geometry and
the facet sharing of the whole (all ranks) mesh."""
import math

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import qugar.cpp as stub  # noqa
from qugar.mesh.mesh_facets import MeshFacets  # noqa
from qugar.mesh.unfitted_domain import UnfittedDomain  # noqa
from drivers.world import World, build, npd, pairs  # noqa

rng = mon.nprng("m04")
I32 = np.int32


def check(case, i):
    data = dict(case.describe(), exclude=case.exclude, how=case.how, p=list(map(float, case.p)), seed=case.seed, dtype=np.dtype(case.dtype).name)
    cls = f"{case.dim}D/{'active' if case.exclude else 'all'}/np{case.size}"
    owned = []
    for rank, m in enumerate(case.meshes):
        dom = m.cpp_unf_domain_object
        w = World(m, case.breaks, dom)
        owned += [int(w.lex[c]) for c in range(w.nloc)]
        D = dict(data, rank=rank)
        mon.check(np.dtype(m.dtype) == np.dtype(case.dtype) and m.mesh is m and m._ufl_domain.unf_domain is m
                  and list(m.num_cells_dir) == case.n and m.degree == case.degree
                  and all(np.allclose(a, b, atol=1e-5) for a, b in zip(m.cell_breaks, case.breaks)),
                  "mesh/attributes", lambda: f"dtype {m.dtype}, cells {m.num_cells_dir}", D, f"attributes/{cls}/{case.how}")
        ops = ["cells:cut", "cells:full", "cells:empty"] + [f"facets:{k}:{e}" for k in ("cut", "full", "empty") for e in (1, 0)] + \
              ["all:1", "all:0"]
        extra = [ops[int(k)] for k in rng.integers(0, len(ops), size=int(rng.integers(0, 9)))]
        seq = [ops[int(k)] for k in rng.permutation(len(ops))] + extra
        ask = int(rng.integers(2, len(seq) + 1))
        seen = {}
        for pos, op in enumerate(seq):
            if pos >= ask and rng.random() < 0.5:
                tags(m, w, D, cls)
            if pos >= ask and rng.random() < 0.3:
                quads(m, w, D, cls)
            D["history"] = seq[: pos + 1]
            k = op.split(":")
            if k[0] == "cells":
                got = getattr(m, f"get_{k[1]}_cells")()
                mon.check(got.tolist() == w.cells(k[1]) and got.dtype == I32, "cells/" + k[1],
                          lambda: f"{got} != {w.cells(k[1])}", D, f"cells-{k[1]}/{cls}/{bool(len(got))}")
                continue
            ext = k[-1] == "1"
            if k[0] == "facets":
                got = getattr(m, f"get_{k[1]}_facets")(ext_integral=ext) if rng.random() < 0.7 or not ext \
                    else getattr(m, f"get_{k[1]}_facets")()
                want = w.facets(k[1], ext)
            else:
                got = m.get_all_facets(ext_integral=ext)
                want = set().union(*[w.facets(s, True) for s in ("cut", "full", "empty")])
                want = want if ext else w.all - want
            P = pairs(got)
            mon.check(set(P) == want and len(P) == len(set(P)) and got.cells_dtype == I32, f"{k[0]}/{'/'.join(k[1:])}",
                      lambda: f"{op} after {seq[:pos]}: {sorted(P)[:30]} ({len(P)}) != {sorted(want)[:30]} ({len(want)})", D,
                      f"{op}/{cls}/{bool(P)}/{'again' if op in seq[:pos] else 'first'}")
            if op in seen and sorted(P) != seen[op]:
                mon.bad("history/" + op, f"a repeated query changed its answer: {seen[op][:20]} -> {sorted(P)[:20]}", D)
            seen[op] = sorted(P)
        tags(m, w, D, cls)
        quads(m, w, D, cls)
        # a second object over the same mesh answers the same (its mesh argument is a plain mesh)
        if rng.random() < 0.4:
            u = UnfittedDomain(m, dom)
            for op in seq[:6]:
                k = op.split(":")
                if k[0] == "facets":
                    got = pairs(getattr(u, f"get_{k[1]}_facets")(k[2] == "1"))
                    mon.check(set(got) == w.facets(k[1], k[2] == "1"), "fresh/facets", op, D, f"fresh/{op}/{cls}")
    want = [c for c in range(case.ncells) if not case.exclude or dom.cells[c] != "empty"]
    mon.check(sorted(owned) == want, "mesh/cells", lambda: f"{sorted(owned)} != {want}", data, "mesh-cells/" + cls)


def tags(m, w, D, cls):
    T = [None if rng.random() < 0.35 else int(rng.choice([0, 1, 2, 7, -3])) for _ in range(3)]
    kinds = ("cut", "full", "empty")
    with mon.case("tags", dict(D, tags=T)):
        mt = m.create_cell_meshtags(*T) if rng.random() < 0.5 else m.create_cell_meshtags(cut_tag=T[0], full_tag=T[1], empty_tag=T[2])
        want = {c: t for k, t in zip(kinds, T) if t is not None for c in w.cells(k)}
        mon.check(mt.dim == w.d and dict(zip(mt.indices.tolist(), mt.values.tolist())) == want and len(mt.indices) == len(want)
                  and mt.indices.tolist() == sorted(want), "tags/cells",
                  lambda: f"{T}: {list(zip(mt.indices, mt.values))} != {sorted(want.items())}", dict(D, tags=T),
                  f"tags-cells/{cls}/{[t is not None for t in T]}")
        ext = bool(rng.random() < 0.5)
        ft = m.create_facet_tags(*T, ext) if not ext or rng.random() < 0.5 else m.create_facet_tags(cut_tag=T[0], full_tag=T[1], empty_tag=T[2])
        want = {}
        for k, t in zip(kinds, T):
            if t is not None:
                want.setdefault(t, []).extend(w.facets(k, ext))
        ok = len(ft) == len(want) and {t for t, _ in ft} == set(want)
        for t, a in ft:
            P = [tuple(x) for x in np.asarray(a).reshape(-1, 2).tolist()]
            ok = ok and a.ndim == 1 and a.dtype == I32 and sorted(P) == sorted(want.get(t, []))
        mon.check(ok, "tags/facets", lambda: f"{T} ext={ext}: {ft} != {want}", dict(D, tags=T, ext=ext),
                  f"tags-facets/{cls}/{[t is not None for t in T]}/{ext}/{len(set(T)) < 3}")


def compare(q, parts, what, D, cls):
    n = [len(p[1]) for p in parts]
    ok = (q.n_pts_per_entity.tolist() == n and np.array_equal(q.weights, np.concatenate([p[1] for p in parts] or [np.zeros(0)]))
          and q.points.shape[0] == sum(n) and all(np.array_equal(a, b) for a, b in zip(
              np.split(q.points, np.cumsum(n)[:-1]) if n else [], [p[0] for p in parts])))
    if ok and what == "unf":
        ok = np.array_equal(q.normals, np.concatenate([p[2] for p in parts] or [np.zeros(q.points.shape)]))
    mon.check(ok, "quad/" + what, lambda: f"counts {q.n_pts_per_entity.tolist()} expected {n}", D, f"quad-{what}/{cls}/{bool(sum(n))}")


def quads(m, w, D, cls):
    degree = int(rng.integers(0, 10))
    n = npd(degree)
    k = int(rng.integers(0, w.nloc + 1))
    cells = rng.permutation(w.nloc)[:k].astype(I32)
    D = dict(D, degree=degree, cells=cells.tolist())
    dom = w.dom
    with mon.case("quad", D):
        mon.check(UnfittedDomain.get_num_Gauss_points(degree) == n, "quad/gauss-points", f"degree {degree}", D, f"gauss/{degree}")
        q = m.create_quad_custom_cells(degree, cells)
        mon.check(np.array_equal(q.cells, cells) and q.cells.dtype == I32, "quad/cells-order", "", D, "quad-cells-order/" + cls)
        compare(q, [stub.entity_points("cell", dom.cells[w.lex[c]], w.lex[c], -1, n, w.d) for c in cells], "cell", D, cls)
        q = m.create_quad_unf_boundaries(degree, cells)
        mon.check(np.array_equal(q.cells, cells) and stub.calls[-1][2:] == (False, False), "quad/unf-arguments",
                  lambda: f"{stub.calls[-1]}", D, "quad-unf-args/" + cls)
        compare(q, [stub.entity_points("unf", dom.cells[w.lex[c]], w.lex[c], -1, n, w.d) for c in cells], "unf", D, cls)
        ps = sorted(w.all)
        ps = [ps[int(j)] for j in rng.permutation(len(ps))[: int(rng.integers(0, len(ps) + 1))]]
        for ext in (True, False):
            F = MeshFacets(np.array([p[0] for p in ps], dtype=I32), np.array([p[1] for p in ps], dtype=I32))
            q = m.create_quad_custom_facets(degree, F, ext)
            parts = []
            for p in ps:
                st = w.facet_rule(p, ext)
                parts.append(stub.entity_points("ext" if ext else "int", st, int(w.lex[p[0]]), w.lexf[p], n, w.d))
            mon.check(pairs(q.facets) == ps, "quad/facets-order", "", D, "quad-facets-order/" + cls)
            compare(q, parts, "ext" if ext else "int", D, cls)


def main():
    for i in range(mon.scale(200, 900)):
        with mon.case("unfitted"):
            stub.calls.clear()
            check(build(rng, i), i)
    mon.done()


if __name__ == "__main__":
    main()
