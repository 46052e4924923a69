"""The mini mesh. `seed(n)` fixes the renumbering of the meshes created next."""
import enum
import itertools

import numpy as np

import basix
from .graph import AdjacencyList_int32

_rng = np.random.default_rng(0)


def seed(n):
    global _rng
    _rng = np.random.default_rng(n)


class GhostMode(enum.IntEnum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class CellType(enum.IntEnum):
    point = 1
    interval = 2
    triangle = 3
    quadrilateral = -4
    tetrahedron = 4
    pyramid = -5
    prism = -6
    hexahedron = -8


_basix_cell = {c: getattr(basix.CellType, c.name) for c in CellType}
_from_name = {c.name: c for c in CellType}


class IndexMap:
    """owned: global ids of owned entities come first, [start, start+size_local)."""

    def __init__(self, start, size_local, size_global, ghosts=()):
        self._start, self.size_local, self.size_global = start, int(size_local), int(size_global)
        self._ghosts = np.asarray(ghosts, dtype=np.int64)

    @property
    def num_ghosts(self):
        return len(self._ghosts)

    @property
    def ghosts(self):
        return self._ghosts

    @property
    def local_range(self):
        return [self._start, self._start + self.size_local]

    def local_to_global(self, local):
        local = np.asarray(local)
        n = self.size_local + self.num_ghosts
        if local.size and (local.min() < 0 or local.max() >= n):
            raise IndexError("local index out of the index map's range")
        allg = np.concatenate([np.arange(self._start, self._start + self.size_local, dtype=np.int64), self._ghosts])
        return allg[local]


class Topology:
    def __init__(self, cell_type, cell_verts_global, original, cell_map, owner_rank, rank, shared, facet_ranges):
        self.cell_type = cell_type
        self._ct = _basix_cell[cell_type]
        self._sub = basix.topology(self._ct)
        self.dim = len(self._sub) - 1
        self.original_cell_index = original
        self._cv_global = cell_verts_global       # (ncells local incl. ghosts, nv) global vertex numbers
        self._imaps = {self.dim: cell_map}
        self._shared = shared                     # global facts about entities, shared by the ranks
        self._rank = rank
        self._facet_ranges = facet_ranges
        self._conn = {}
        self._ents = {}
        self._perm = None
        verts, inv = np.unique(cell_verts_global, return_inverse=True)
        inv = inv.reshape(cell_verts_global.shape)
        # local vertex numbers: owned ones first, otherwise random but fixed
        own = shared["entity_owner"](0)
        perm = shared["rng"](("v", rank)).permutation(len(verts))
        is_own = np.array([own[(int(verts[i]),)] == rank for i in perm], dtype=bool)
        seq = np.concatenate([perm[is_own], perm[~is_own]]).astype(np.int64)
        order = np.empty(len(verts), dtype=np.int64)
        order[seq] = np.arange(len(verts))
        self._conn[(self.dim, 0)] = AdjacencyList_int32(order[inv].astype(np.int32))
        nown = int(is_own.sum())
        self._imaps[0] = IndexMap(shared["entity_start"](0)[rank], nown, len(own), ghosts=np.full(len(verts) - nown, -1))
        self._nv_local = len(verts)
        self._lv_to_g = verts[seq].astype(np.int64)
        self._ents[0] = [(int(g),) for g in self._lv_to_g]

    # -- entities ---------------------------------------------------------
    def create_entities(self, d):
        if d in self._ents or d == self.dim:
            return
        cv = self._conn[(self.dim, 0)].array.reshape(-1, len(self._sub[0]))
        keys, per_cell = {}, []
        for row in self._cv_global:
            here = []
            for loc in self._sub[d]:
                k = tuple(sorted(int(row[v]) for v in loc))
                here.append(keys.setdefault(k, len(keys)))
            per_cell.append(here)
        n = len(keys)
        own = self._shared["entity_owner"](d)     # key -> rank
        klist = list(keys)
        owned = [i for i, k in enumerate(klist) if own[k] == self._rank]
        ghost = [i for i, k in enumerate(klist) if own[k] != self._rank]
        rng = self._shared["rng"](("e", d, self._rank))
        owned = [owned[i] for i in rng.permutation(len(owned))]
        ghost = [ghost[i] for i in rng.permutation(len(ghost))]
        new = np.empty(n, dtype=np.int64)
        new[np.array(owned + ghost, dtype=np.int64)] = np.arange(n)
        per_cell = new[np.array(per_cell, dtype=np.int64).reshape(len(self._cv_global), len(self._sub[d]))]
        self._ents[d] = [klist[i] for i in owned + ghost]
        self._conn[(self.dim, d)] = AdjacencyList_int32(per_cell.astype(np.int32))
        glob_start = self._shared["entity_start"](d)[self._rank]
        # ghost global numbers are not needed by anybody here
        self._imaps[d] = IndexMap(glob_start, len(owned), len(own), ghosts=np.full(len(ghost), -1))
        del cv

    def create_connectivity(self, d0, d1):
        self.create_entities(d0)
        self.create_entities(d1)
        if (d0, d1) in self._conn:
            return
        if d0 < d1 == self.dim:
            down = self._conn[(d1, d0)]
            n = (len(self._ents[d0]) if d0 else self._nv_local)
            lists = [[] for _ in range(n)]
            for c in range(down.num_nodes):
                for e in down.links(c):
                    lists[e].append(c)
            off = np.concatenate([[0], np.cumsum([len(x) for x in lists])])
            flat = np.array(list(itertools.chain.from_iterable(lists)), dtype=np.int32)
            self._conn[(d0, d1)] = AdjacencyList_int32(flat, off)
        elif d1 == 0:
            g2l = {int(g): i for i, g in enumerate(self._lv_to_g)}
            per_cell = self._conn[(self.dim, d0)]
            res = {}
            for c in range(per_cell.num_nodes):
                for j, e in enumerate(per_cell.links(c)):
                    res.setdefault(int(e), [g2l[int(self._cv_global[c][v])] for v in self._sub[d0][j]])
            self._conn[(d0, 0)] = AdjacencyList_int32(np.array([res[e] for e in range(len(res))], dtype=np.int32))
        elif d0 == d1 == self.dim:
            self.create_connectivity(self.dim, self.dim - 1)
            self.create_connectivity(self.dim - 1, self.dim)
            f2c, c2f = self._conn[(self.dim - 1, self.dim)], self._conn[(self.dim, self.dim - 1)]
            lists = [sorted({int(o) for f in c2f.links(c) for o in f2c.links(f)} - {c}) for c in range(c2f.num_nodes)]
            off = np.concatenate([[0], np.cumsum([len(x) for x in lists])])
            self._conn[(d0, d1)] = AdjacencyList_int32(np.array(sum(lists, []), dtype=np.int32), off)
        else:
            raise NotImplementedError(f"stub: connectivity({d0},{d1})")

    def connectivity(self, d0, d1):
        return self._conn.get((d0, d1))

    def index_map(self, d):
        return self._imaps.get(d)

    # -- permutations -------------------------------------------------------
    def create_entity_permutations(self):
        if self._perm is not None:
            return
        self.create_entities(self.dim - 1)
        out = []
        for row in self._cv_global:
            for loc in self._sub[self.dim - 1]:
                v = [int(row[i]) for i in loc]
                out.append(_facet_perm(v))
        self._perm = np.array(out, dtype=np.uint8)

    def get_facet_permutations(self):
        if self._perm is None:
            raise RuntimeError("create_entity_permutations must be called before using this data.")
        return self._perm

    def interprocess_facets(self):
        return [i for i, k in enumerate(self._ents[self.dim - 1]) if self._shared["facet_cells"]()[k] > 1]


def _facet_perm(v):
    """2 * rotations + reflections that take the facet as its entity is stored (lowest global
    vertex first, then its lower neighbour) to the order of the vertices in this cell"""
    n = len(v)
    if n == 1:
        return 0
    if n < 4:
        w = sorted(range(n), key=lambda i: v[i])
    else:
        m = min(range(4), key=lambda i: v[i])
        w = [m, *sorted((m ^ 1, m ^ 2), key=lambda i: v[i]), m ^ 3]
    # w[j]: position in the cell's facet of the j-th vertex of the entity
    if n == 2:
        return int(w[1] < w[0])
    m = w.index(0)
    if n == 3:
        pre, post = w[(m - 1) % 3], w[(m + 1) % 3]
        return 2 * m + int(post > pre)
    pre, post, rots = {0: (2, 1, 0), 1: (0, 3, 1), 2: (3, 0, 3), 3: (1, 2, 2)}[m]
    return 2 * rots + int(w[post] > w[pre])


class Geometry:
    def __init__(self, x, dim, dofmap, igi, cmap):
        self.x, self.dim, self.dofmap, self.input_global_indices, self.cmap = x, dim, dofmap, igi, cmap


class _MeshCpp:
    def __init__(self, comm, topology, geometry):
        self.comm, self.topology, self.geometry = comm, topology, geometry


def create_cell_partitioner(mode, *a):
    return ("partitioner", GhostMode(int(mode)))


def _partition(ncells, size, rng):
    cuts = np.sort(rng.integers(0, ncells + 1, size - 1)) if size > 1 else np.array([], dtype=int)
    owner = np.searchsorted(cuts, np.arange(ncells), side="right")
    return owner


def create_mesh(comm, conn, cmap, nodes, partitioner=None, *a):
    conn = np.asarray(conn)
    nodes = np.asarray(nodes)
    if comm.rank == 0:
        if nodes.ndim == 1:
            nodes = nodes.reshape(-1, 1)
        if conn.dtype != np.int64 or not conn.flags.c_contiguous or conn.ndim != 2:
            raise TypeError(f"create_mesh(): incompatible cells argument {conn.dtype} {conn.shape}")
        if nodes.dtype not in (np.float32, np.float64):
            raise TypeError("create_mesh(): incompatible nodes argument")
        if conn.shape[1] != cmap.dim:
            raise RuntimeError("create_mesh(): wrong number of nodes per cell")
        if conn.size and (conn.min() < 0 or conn.max() >= len(nodes)):
            raise RuntimeError("create_mesh(): node index out of range")
        comm.world["mesh"] = (conn, nodes, int(_rng.integers(1 << 31)), partitioner)
        comm.world.pop("shared", None)
    conn, nodes, key, partitioner = comm.world["mesh"]
    ct = _from_name[cmap.cell_type.name]
    nv = len(basix.topology(_basix_cell[ct])[0])
    if callable(partitioner):
        # one destination per cell of the given vertices
        dest = partitioner(comm, comm.size, [ct], [np.ascontiguousarray(conn[:, :nv]).ravel()])
        if not isinstance(dest, AdjacencyList_int32):
            raise TypeError("partitioner: an AdjacencyList_int32 is expected")
        if dest.num_nodes != len(conn):
            raise RuntimeError(f"partitioner: {dest.num_nodes} destinations for {len(conn)} cells")
        if any(len(dest.links(i)) < 1 or not all(0 <= r < comm.size for r in dest.links(i)) for i in range(len(conn))):
            raise RuntimeError("partitioner: invalid destination")
        partitioner = None
    mode = GhostMode.none if partitioner is None else partitioner[1]

    def rng(tag):
        return np.random.default_rng([key, __import__("zlib").crc32(str(tag).encode())])

    shared = comm.world.get("shared")
    if shared is None:
        shared = comm.world["shared"] = dict(rng=rng, size=comm.size)
        used = np.unique(conn[:, :nv])
        gv = np.empty(len(nodes), dtype=np.int64)
        gv[used] = rng("gv").permutation(len(used))
        shared["gv"], shared["nverts"] = gv, len(used)
        shared["owner"] = _partition(len(conn), comm.size, rng("part"))
        cache = {}
        sub = basix.topology(_basix_cell[ct])

        def owner_of(d):
            if ("o", d) not in cache:
                own, cnt = {}, {}
                for c, row in enumerate(gv[conn[:, :nv]]):
                    for loc in sub[d]:
                        k = tuple(sorted(int(row[v]) for v in loc))
                        r = int(shared["owner"][c])
                        own[k] = min(own.get(k, r), r)
                        cnt[k] = cnt.get(k, 0) + 1
                cache[("o", d)], cache[("c", d)] = own, cnt
            return cache[("o", d)]

        def start_of(d):
            own = owner_of(d)
            n = np.bincount(list(own.values()) or [0], minlength=comm.size) if own else np.zeros(comm.size, int)
            return np.concatenate([[0], np.cumsum(n)])

        def facet_cells():
            owner_of(len(sub) - 2)
            return cache[("c", len(sub) - 2)]
        shared.update(entity_owner=owner_of, entity_start=start_of, facet_cells=facet_cells)

    owner = shared["owner"]
    mine = np.flatnonzero(owner == comm.rank)
    mine = mine[rng(("c", comm.rank)).permutation(len(mine))]
    ghosts = np.array([], dtype=np.int64)
    if mode != GhostMode.none and comm.size > 1:
        gvc = shared["gv"][conn[:, :nv]]
        sub = basix.topology(_basix_cell[ct])
        d = len(sub) - 2 if mode == GhostMode.shared_facet else 0
        keys = lambda row: {tuple(sorted(int(row[v]) for v in loc)) for loc in sub[d]}  # noqa
        my = set().union(*[keys(gvc[c]) for c in mine]) if len(mine) else set()
        ghosts = np.array([c for c in range(len(conn)) if owner[c] != comm.rank and keys(gvc[c]) & my], dtype=np.int64)
    local = np.concatenate([mine, ghosts]).astype(np.int64)
    counts = np.bincount(owner, minlength=comm.size) if len(owner) else np.zeros(comm.size, int)
    start = int(np.concatenate([[0], np.cumsum(counts)])[comm.rank])
    cell_map = IndexMap(start, len(mine), len(conn), ghosts=np.full(len(ghosts), -1))
    top = Topology(ct, shared["gv"][conn[local][:, :nv]], local, cell_map, owner, comm.rank, shared, None)

    used = np.unique(conn[local])
    order = rng(("n", comm.rank)).permutation(len(used))
    igi = used[order].astype(np.int64)
    inv = np.full(len(nodes), -1, dtype=np.int32)
    inv[igi] = np.arange(len(igi), dtype=np.int32)
    x = np.zeros((len(igi), 3), dtype=nodes.dtype)
    x[:, :nodes.shape[1]] = nodes[igi]
    geom = Geometry(x, nodes.shape[1], inv[conn[local]], igi, cmap)
    return _MeshCpp(comm, top, geom)
