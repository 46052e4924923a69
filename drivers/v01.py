"""V01: version gates, observed through the public predicates with injected packages."""
import importlib.util, itertools, os, re, sys, tempfile, types
from drivers.mon import REPO, Monitor

M = Monitor()


def load_utils():
    spec = importlib.util.spec_from_file_location("qugar_utils_v01", os.path.join(REPO, "python/qugar/utils.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


U = load_utils()
# the documented bounds: doc/installation.rst calls pyproject.toml the authoritative list
PINS = {m[1]: (m[2], m[3]) for m in re.finditer(r'"fenics-(\w+)>=([\d.]+),<([\d.]+)"',
                                                open(os.path.join(REPO, "python/pyproject.toml")).read())}
assert set(PINS) == {"dolfinx", "basix", "ffcx", "ufl"}, PINS


def parse(v):
    return tuple(int(x) for x in v.split("."))


def rel(a, b):
    for i in range(3):
        if a[i] != b[i]:
            return ("<" if a[i] < b[i] else ">") + str(i)
    return "="


def vs(t):
    return ".".join(map(str, t))


def around(rng, b):
    """version near a bound: each component smaller, equal or larger, of other lengths."""
    out = []
    for x in b:
        k = rng.randrange(7)
        out.append(max(0, [x, x, x, x - 1, x + 1, x * 10 + rng.randrange(12), rng.randrange(0, 2 * x + 12)][k]))
    return tuple(out)


# 1. the comparison itself
n = M.scale(20000, 200000)
for i in range(n):
    r = M.rng
    lo = tuple(r.choice([0, 1, 2, 9, 10, 11, 99, 100, 2025, r.randrange(10**6)]) for _ in range(3))
    hi = around(r, lo)
    v = around(r, r.choice([lo, hi]))
    want = lo <= v < hi
    ok, got = M.guard("range-raised", U.check_version_in_range, vs(v), vs(lo), vs(hi), data=[v, lo, hi])
    if ok:
        M.check(bool(got) == want, "range-wrong", f"{vs(v)} in [{vs(lo)}, {vs(hi)}) answered {got}", [v, lo, hi],
                cls=f"range {rel(v, lo)} {rel(v, hi)}")

# 2. the gates of the packages, with packages of every version around the bounds and none.
GATES = [("check_DOLFINx", "dolfinx.cpp", "DOLFINX"), ("check_Basix", "basix", "BASIX"),
         ("check_FFCx", "ffcx", "FFCX"), ("check_UFL", "ufl", "UFL")]


def with_module(name, version, fn):
    """Runs fn with package `name` present at a version, or absent (version None)."""
    saved = {k: m for k, m in sys.modules.items() if k == name or k.startswith(name.split(".")[0] + ".")
             or k == name.split(".")[0]}
    for k in saved:
        del sys.modules[k]
    try:
        top = name.split(".")[0]
        if version is None:
            sys.modules[top] = None
            if name != top:
                sys.modules[name] = None
        else:
            t = types.ModuleType(top)
            t.__path__ = []
            t.__version__ = version
            sys.modules[top] = t
            if name != top:
                c = types.ModuleType(name)
                c.__version__ = version
                sys.modules[name] = c
                setattr(t, name.split(".")[1], c)
        # ufl's gate asks importlib.metadata
        return fn()
    finally:
        for k in [k for k in sys.modules if k == name or k.split(".")[0] == name.split(".")[0]]:
            del sys.modules[k]
        sys.modules.update(saved)


import importlib.metadata as md
real_version = md.version


for fn, mod, const in GATES:
    gate = getattr(U, fn)
    lo, hi = map(parse, PINS[mod.split(".")[0]])
    cases = [None, lo, hi, (lo[0], lo[1], lo[2] + 5), (lo[0], lo[1], 99), (hi[0], hi[1], hi[2] + 1)]
    cases += [around(M.rng, M.rng.choice([lo, hi])) for _ in range(M.scale(300, 3000))]
    for v in cases:
        def fake(name, v=v, top=mod.split(".")[0]):
            if name.lower().replace("fenics-", "") == top:
                if v is None:
                    raise md.PackageNotFoundError(name)
                return vs(v)
            return real_version(name)
        md.version = fake
        try:
            ok, got = M.guard(f"{fn}-raised", lambda: with_module(mod, None if v is None else vs(v), gate), data=v)
        finally:
            md.version = real_version
        want = v is not None and lo <= v < hi
        if ok:
            M.check(bool(got) == want, f"{fn}-wrong", f"{fn}() with version {v} answered {got}, bounds {lo} {hi}", v,
                    cls=f"{fn} {'absent' if v is None else rel(v, lo) + ' ' + rel(v, hi)}")

# 3. the flags computed on import: all four packages in range / one of them not.
MODS = [("dolfinx.cpp", "dolfinx"), ("basix", "basix"), ("ffcx", "ffcx"), ("ufl", "ufl")]


def load_with(vers):
    def rec(i):
        if i == len(MODS):
            return load_utils().has_FEniCSx
        return with_module(MODS[i][0], vers[i], lambda: rec(i + 1))
    return rec(0)


for i in range(M.scale(60, 600)):
    vers = []
    for mod, top in MODS:
        lo, hi = map(parse, PINS[top])
        r = M.rng.random()
        vers.append(None if r < .1 else (lo[0], lo[1], M.rng.randrange(200)) if r < .8 else around(M.rng, M.rng.choice([lo, hi])))
    want = all(v is not None and parse(PINS[t][0]) <= v < parse(PINS[t][1]) for v, (_, t) in zip(vers, MODS))

    def fakev(name, vers=vers):
        top = name.lower().replace("fenics-", "")
        for v, (_, t) in zip(vers, MODS):
            if t == top:
                if v is None:
                    raise md.PackageNotFoundError(name)
                return vs(v)
        return real_version(name)
    md.version = fakev
    try:
        ok, got = M.guard("flag-raised", load_with, [None if v is None else vs(v) for v in vers], data=vers)
    finally:
        md.version = real_version
    if ok:
        M.check(bool(got) == want, "flag-wrong", f"has_FEniCSx={got} with {vers}", vers,
                cls=f"has_FEniCSx {[None if v is None else rel(v, parse(PINS[t][0])) for v, (_, t) in zip(vers, MODS)]}")

# has_PyVista: presence only
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "pyvista.py"), "w").write("raise ImportError('broken')\n")
    for present in (False, True):
        if present:
            sys.path.insert(0, d)
        importlib.invalidate_caches()
        ok, u = M.guard("pyvista-raised", load_utils)
        if ok:
            M.check(bool(u.has_PyVista) == present, "pyvista-flag", f"has_PyVista={u.has_PyVista}, present={present}",
                    cls=f"pyvista {present}")
        if present:
            sys.path.remove(d)

# petsc4py: only presence matters
ok, got = M.guard("petsc-raised", lambda: with_module("petsc4py", None, U.check_PETSc))
if ok:
    M.check(got is False, "petsc-absent", "check_PETSc() true without petsc4py", cls="petsc absent")


def present():
    sys.modules["petsc4py"].PETSc = types.ModuleType("petsc4py.PETSc")
    return U.check_PETSc()


ok, got = M.guard("petsc-raised", lambda: with_module("petsc4py", "3.2.1", present))
if ok:
    M.check(got is True, "petsc-present", "check_PETSc() false with petsc4py", cls="petsc present")
M.done()
