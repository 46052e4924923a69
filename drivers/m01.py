import itertools

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
from qugar.mesh.mesh_facets import (MeshFacets, create_all_mesh_facets, create_exterior_mesh_facets,  # noqa
                                    create_facets_from_ids, create_interior_mesh_facets)
from drivers import meshes  # noqa

rng = mon.nprng("m01")


def pairs(f):
    return list(zip(f.cell_ids.tolist(), f.local_facet_ids.tolist()))


def snap(f):
    return (f.cell_ids.copy(), f.local_facet_ids.copy(), f.cell_ids.dtype, f.local_facet_ids.dtype)


def same(f, s):
    return (np.array_equal(f.cell_ids, s[0]) and np.array_equal(f.local_facet_ids, s[1])
            and f.cell_ids.dtype == s[2] and f.local_facet_ids.dtype == s[3])


def szc(n):
    return "0" if n == 0 else "1" if n == 1 else "n"


def make(dtype, universe=None, n=None, unique=False):
    n = int(rng.choice([0, 1, 2, 5, 17, 60])) if n is None else n
    hi = int(rng.choice([2, 7, 100, 2**31 - 1 if dtype == np.int32 else 2**40]))
    nf = int(rng.choice([2, 4, 6]))
    if universe is not None:
        sel = universe[rng.integers(0, len(universe), size=n)] if len(universe) else np.empty((0, 2), dtype=np.int64)
        c, f = sel[:, 0], sel[:, 1]
    else:
        c, f = rng.integers(0, hi, size=n), rng.integers(0, nf, size=n)
    if unique and len(c):
        u = np.unique(np.stack([c, f], 1), axis=0)
        u = u[rng.permutation(len(u))]
        c, f = u[:, 0], u[:, 1]
    return MeshFacets(np.asarray(c).astype(dtype), np.asarray(f).astype(np.int32))


def two(dtype, unique):
    """operands sharing some pairs, with cells near each other so that a confusion of
    the two columns would show"""
    k = int(rng.choice([1, 3, 8, 30]))
    hi = int(rng.choice([2, 6, 12]))
    base = int(rng.choice([0, 0, 0, 2**30, 2**31 - 1 - hi if dtype == np.int32 else 2**60]))
    uni = np.stack([base + rng.integers(0, hi, size=k), rng.integers(0, 6, size=k)], 1)
    n1, n2 = (int(rng.choice([0, 1, 4, 15, 40])) for _ in range(2))
    return make(dtype, uni, n1, unique), make(dtype, uni if rng.random() < 0.8 else None, n2, unique)


def algebra(i):
    dtype = [np.int32, np.int64][i % 2]
    dn = np.dtype(dtype).name
    for uniq in (False, True):
        a, b = two(dtype, uniq)
        A, B = pairs(a), pairs(b)
        sa, sb = snap(a), snap(b)
        data = dict(a=A, b=B, dtype=dn)
        tag = f"{dn}/{'unique' if uniq else 'dups'}/{szc(len(A))},{szc(len(B))}"
        ok, r = mon.guard("concatenate/raised", a.concatenate, b, data=data)
        if ok:
            mon.check(pairs(r) == A + B and r.cells_dtype == dtype, "concatenate/content",
                      lambda: f"{pairs(r)} != {A}+{B}", data, "concatenate/" + tag)
            r.unique()
            mon.check(same(a, sa) and same(b, sb), "concatenate/operands", "de-duplicating the result changed an operand", data,
                      "concatenate-alias/" + tag)
        for name, want in (("intersect", set(A) & set(B)), ("difference", set(A) - set(B))):
            for au in ((False, True) if uniq else (False,)):
                ok, r = mon.guard(name + "/raised", getattr(a, name), b, assume_unique=au, data=data)
                if not ok:
                    continue
                P = pairs(r)
                mon.check(set(P) == want and len(P) == len(set(P)) and r.cells_dtype == dtype
                          and r.local_facet_ids.dtype == np.int32, name + "/content",
                          lambda: f"assume_unique={au}: {sorted(P)} != {sorted(want)} dtype {r.cells_dtype}", data,
                          f"{name}/{au}/{tag}/{szc(len(want))}")
                mon.check(same(a, sa) and same(b, sb), name + "/operands", "an operand changed", data, name + "-operands/" + tag)
        # positions
        if uniq:
            ok, r = mon.guard("difference/raised", a.difference, b, data=data)
            if len(A):
                pick = rng.integers(0, len(A), size=int(rng.choice([0, 1, len(A), 2 * len(A)])))
                q = MeshFacets(a.cell_ids[pick], a.local_facet_ids[pick])
                ok, pos = mon.guard("find/raised", a.find, q, data=data)
                if ok:
                    mon.check(np.array_equal(pos, pick) and pos.dtype.kind == "i", "find/positions",
                              lambda: f"{pos} != {pick}", data, f"find/{tag}/{szc(len(pick))}")
            absent = [p for p in B if p not in set(A)]
            if absent:
                pick = [A[k] for k in rng.integers(0, len(A), size=2)] if A else []
                lst = pick + [absent[int(rng.integers(len(absent)))]]
                rng.shuffle(lst)
                q = MeshFacets(np.array([p[0] for p in lst], dtype=dtype), np.array([p[1] for p in lst], dtype=np.int32))
                try:
                    got = a.find(q)
                    mon.bad("find/absent", f"absent pair looked up without an error: {lst} in {A} -> {got}", data)
                except ValueError:
                    mon.see("find-absent/" + tag)
                except Exception as e:
                    mon.bad("find/absent", f"absent pair: {type(e).__name__} instead of ValueError", data)
            mon.check(same(a, sa) and same(b, sb), "find/operands", "an operand changed", data, "find-operands/" + tag)
        # unique, as_array, access
        arr = a.as_array()
        mon.check(arr.tolist() == list(itertools.chain.from_iterable(A)) and arr.dtype == dtype, "as_array/content",
                  lambda: f"{arr} for {A}", data, "as_array/" + tag)
        mon.check(a.size == len(A) and bool(a.empty) == (not A), "size/value", f"size {a.size} empty {a.empty} for {len(A)}",
                  data, "size/" + tag)
        for k in range(len(A)):
            if tuple(int(v) for v in a[k]) != A[k]:
                mon.bad("getitem/value", f"entry {k} is {a[k]} not {A[k]}", data)
                break
        c = MeshFacets(a.cell_ids.copy(), a.local_facet_ids.copy())
        ok, _ = mon.guard("unique/raised", c.unique, data=data)
        if ok:
            P = pairs(c)
            mon.check(set(P) == set(A) and len(P) == len(set(P)) and c.cells_dtype == dtype
                      and c.local_facet_ids.dtype == np.int32, "unique/content", lambda: f"{P} for {A}", data, "unique/" + tag)
        # a longer history of operations against plain sets
    return


def history(i):
    dtype = [np.int32, np.int64][i % 2]
    pool = [make(dtype, np.stack([np.repeat(np.arange(4), 4), np.tile(np.arange(4), 4)], 1), int(rng.integers(0, 12)))
            for _ in range(4)]
    model = [pairs(p) for p in pool]
    for step in range(12):
        op = str(rng.choice(["cat", "int", "dif", "uni"]))
        x, y, z = (int(v) for v in rng.integers(0, 4, size=3))
        if op == "uni":
            pool[x].unique()
            model[x] = sorted(set(model[x]))
            if sorted(pairs(pool[x])) != model[x]:
                return mon.bad("history/content", f"unique at step {step}: {pairs(pool[x])} != {model[x]}")
            model[x] = pairs(pool[x])
            continue
        r = getattr(pool[x], {"cat": "concatenate", "int": "intersect", "dif": "difference"}[op])(pool[y])
        want = {"cat": model[x] + model[y], "int": sorted(set(model[x]) & set(model[y])),
                "dif": sorted(set(model[x]) - set(model[y]))}[op]
        if sorted(pairs(r)) != sorted(want):
            return mon.bad("history/content", f"{op} at step {step}: {pairs(r)} != {want}")
        pool[z], model[z] = r, pairs(r)
        for k in range(4):
            if pairs(pool[k]) != model[k]:
                return mon.bad("history/alias", f"{op} at step {step} changed another collection")
        mon.see(f"history/{op}/{x == y}/{np.dtype(dtype).name}")


def simplex_mesh():
    """a mesh of triangles or tetrahedra (create_* accept any DOLFINx mesh)"""
    import basix.ufl
    import dolfinx.mesh
    from mpi4py import MPI
    dim = int(rng.integers(2, 4))
    n = [int(rng.integers(1, 4 if dim == 2 else 3)) for _ in range(dim)]
    pts = meshes.lex_points([np.arange(k + 1.0) for k in n])
    st = np.cumprod([1] + [k + 1 for k in n])[:-1]
    cells = []
    for t in itertools.product(*[range(k) for k in n]):
        o = int(np.dot(t, st))
        for perm in itertools.permutations(range(dim)):
            v, c = o, [o]
            for d in perm:
                v += int(st[d])
                c.append(v)
            cells.append(c)
    cells = np.array(cells, dtype=np.int64)
    e = basix.ufl.element("Lagrange", "triangle" if dim == 2 else "tetrahedron", 1, shape=(dim,))
    import dolfinx.cpp.mesh as m
    m.seed(int(rng.integers(1 << 31)))
    return dolfinx.mesh.create_mesh(MPI.COMM_WORLD, cells, e, pts), "simplex"


def mesh_sets(i):
    with mon.case("mesh-facets"):
        if i % 5 == 4:
            msh, cls = simplex_mesh()
            todo, case = [msh], None
        else:
            case = meshes.Case(rng, ranks=(1, 1, 2, 3), degree=1 if i % 2 else None)
            todo, cls = case.meshes, case.cls
        data = case.describe() if case else None
        for rank, msh in enumerate(todo):
            top = msh.topology
            d = top.dim
            order = [str(x) for x in rng.permutation(["ext", "int", "int1", "all", "all1", "ids"])]
            got = {}
            if i % 3 == 0 or case is None:
                for k in order:    # queries on a mesh whose connectivities nobody created
                    ok, got[k] = mon.guard(f"mesh/{k}/raised", query, k, msh, data=dict(data or {}, order=order, rank=rank))
            fp = meshes.facet_pairs(msh)
            n = top.index_map(d - 1).size_local
            total = top._shared["facet_cells"]()
            ext = {f for f in range(n) if total[top._ents[d - 1][f]] == 1}
            inn = set(range(n)) - ext
            top.create_connectivity(d - 1, d)
            for k in order:
                if k not in got:
                    ok, got[k] = mon.guard(f"mesh/{k}/raised", query, k, msh, data=dict(data or {}, order=order, rank=rank))
                r = got[k]
                if r is None:
                    continue
                ids = None
                if k == "ids":
                    ids, r = r
                    if ids is None:
                        continue
                P = pairs(r)
                fac = {"ext": ext, "int": inn, "int1": inn, "all": set(range(n)), "all1": set(range(n))}.get(k)
                if k == "ids":
                    fac = set(ids)
                single = k.endswith("1")
                if single:
                    hit = [f for f, ps in fp.items() if f in fac for p in ps if p in set(P)]
                    good = sorted(hit) == sorted(fac) and len(P) == len(fac)
                else:
                    want = {p for f in fac for p in fp[f]}
                    good = set(P) == want and len(P) == len(want)
                mon.check(good and r.cells_dtype == np.int32, f"mesh/{k}/content",
                          lambda: f"{sorted(P)[:40]} are not the facets {sorted(fac)[:40]} of rank {rank}",
                          dict(data or {}, order=order, rank=rank), f"mesh-{k}/{cls}/{'fresh' if i % 3 == 0 or case is None else 'warm'}")
                if case is None:
                    continue
                # facet ids back
                ids2 = r.get_facet_ids(msh)
                mon.check([int(f) for f in ids2] == [next(f for f, ps in fp.items() if p in ps) for p in P],
                          "facet-ids/content", "get_facet_ids differs from the mesh's facets", data, "facet-ids/" + cls)
                # original numbering and back
                s = snap(r)
                o = r.to_original(msh)
                mid = meshes.facet_midpoints(msh)
                lex = meshes.lex_cells(msh, case.breaks)
                good = o.size == r.size and o.cells_dtype == np.int64
                for (c, lf), (oc, of) in zip(P, pairs(o)):
                    if oc != lex[c] or np.abs(meshes.lex_facet_midpoint(case.breaks, oc, of) - mid[c, lf]).max() > 1e-9:
                        good = False
                mon.check(good, "to_original/content", lambda: f"{P[:20]} -> {pairs(o)[:20]}", data, "to-original/" + cls)
                b = o.to_DOLFINx(msh)
                mon.check(pairs(b) == P and b.cells_dtype == np.int32, "to_DOLFINx/round-trip",
                          lambda: f"{P[:20]} -> {pairs(o)[:20]} -> {pairs(b)[:20]}", data, "to-DOLFINx/" + cls)
                mon.check(same(r, s), "to_original/operands", "the operand changed", data, "conv-operands/" + cls)


def query(k, msh):
    if k == "ext":
        return create_exterior_mesh_facets(msh)
    if k in ("int", "all") and rng.random() < 0.5:   # both sides unless told otherwise
        return (create_interior_mesh_facets if k == "int" else create_all_mesh_facets)(msh)
    if k in ("int", "int1"):
        return create_interior_mesh_facets(msh, single_interior_facet=k == "int1")
    if k in ("all", "all1"):
        return create_all_mesh_facets(msh, single_interior_facet=k == "all1")
    top = msh.topology
    top.create_connectivity(top.dim - 1, top.dim)
    imap = top.index_map(top.dim - 1)
    n = imap.size_local + imap.num_ghosts
    ids = rng.permutation(n)[: int(rng.integers(0, n + 1))].astype(np.int32)
    return ids.tolist(), create_facets_from_ids(msh, ids)


def main():
    for i in range(mon.scale(400, 6000)):
        with mon.case("algebra"):
            algebra(i)
    for i in range(mon.scale(150, 2000)):
        with mon.case("history"):
            history(i)
    for i in range(mon.scale(80, 1200)):
        mesh_sets(i)
    mon.done()


if __name__ == "__main__":
    main()
