import itertools

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import basix  # noqa
import qugar.mesh.utils as U  # noqa

from drivers.m02_oracle import *  # noqa


def judge(name, args, src, dst):
    """documented: `a_src[i] = a_dst[perm[i]]`"""
    with mon.case(name, data=args):
        perm = getattr(U, name)(*args)
        n = len(src)
        ok = isinstance(perm, np.ndarray) and perm.dtype.kind == "i" and sorted(perm.tolist()) == list(range(n))
        mon.check(ok, name + "/permutation", lambda: f"{name}{args} = {perm} is no permutation of {n}", args, f"perm/{name}/{args}")
        if not ok:
            return None
        wrong = [i for i in range(n) if src[i] != dst[perm[i]]]
        mon.check(not wrong, name + "/location",
                  lambda: f"{name}{args}: entity {wrong[0]} at {src[wrong[0]]} is sent to {perm[wrong[0]]} at {dst[perm[wrong[0]]]}",
                  args, f"location/{name}/{args}")
        return perm


def inverse(name, args, p, q):
    if p is None or q is None:
        return
    mon.check(np.array_equal(p[q], np.arange(len(p))) and np.array_equal(q[p], np.arange(len(p))), name + "/inverse",
              f"{name}{args} and its declared inverse do not compose to the identity", args, f"inverse/{name}/{args}")


def main():
    rng = mon.nprng("m02")
    for rep in range(2):
        todo = [(d, p) for d in (1, 2, 3) for p in range(1, mon.scale({1: 12, 2: 9, 3: 7}, {1: 30, 2: 20, 3: 13})[d])]
        for d, p in [todo[i] for i in rng.permutation(len(todo))]:
            L, D, V = lex_nodes(d, p), dlf_nodes(d, p), vtk_nodes(d, p)
            assert sorted(L) == sorted(D) == sorted(V)
            m = {}
            for n, s, t in (("VTK_to_lexicg_nodes", V, L), ("lexicg_to_VTK_nodes", L, V), ("DOLFINx_to_lexicg_nodes", D, L),
                            ("lexicg_to_DOLFINx_nodes", L, D), ("DOLFINx_to_VTK_nodes", D, V), ("VTK_to_DOLFINx_nodes", V, D)):
                m[n] = judge(n, (d, p), s, t)
            for a, b in (("VTK_to_lexicg_nodes", "lexicg_to_VTK_nodes"), ("DOLFINx_to_lexicg_nodes", "lexicg_to_DOLFINx_nodes"),
                         ("DOLFINx_to_VTK_nodes", "VTK_to_DOLFINx_nodes")):
                inverse(a, (d, p), m[a], m[b])
        for d in (1, 2, 3):
            m = {}
            # faces and edges: perm[i] of the target's entity i is the source's entity
            for n, s, t in (("lexicg_to_DOLFINx_faces", faces_dlf(d), faces_lex(d)),
                            ("DOLFINx_to_lexicg_faces", faces_lex(d), faces_dlf(d)),
                            ("lexicg_to_VTK_faces", faces_vtk(d), faces_lex(d)),
                            ("VTK_to_lexicg_faces", faces_lex(d), faces_vtk(d)),
                            ("lexicg_to_DOLFINx_edges", edges_dlf(d), edges_lex(d)),
                            ("DOLFINx_to_lexicg_edges", edges_lex(d), edges_dlf(d))):
                m[n] = judge(n, (d,), s, t)
            for a, b in (("lexicg_to_DOLFINx_faces", "DOLFINx_to_lexicg_faces"), ("lexicg_to_VTK_faces", "VTK_to_lexicg_faces"),
                         ("lexicg_to_DOLFINx_edges", "DOLFINx_to_lexicg_edges")):
                inverse(a, (d,), m[a], m[b])
    from mpi4py import MPI
    import dolfinx.cpp.graph as g
    for i in range(20):
        n, r = int(rng.integers(0, 30)), int(rng.integers(0, 4))
        with mon.case("partitioner"):
            cells = g.AdjacencyList_int64(rng.integers(0, 9, size=(n, 4)).astype(np.int64)) if n else g.AdjacencyList_int64(
                np.empty(0, dtype=np.int64), np.zeros(1, dtype=np.int32))
            a = U.create_identity_partitioner(MPI.Intracomm(r, 4), 4, 2, cells)
            mon.check(a.num_nodes == n and all(a.links(k).tolist() == [r] for k in range(n)), "partitioner/content",
                      "a cell is sent to another rank", None, f"partitioner/{r}")
    mon.done()


if __name__ == "__main__":
    main()
