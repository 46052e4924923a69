"""K07: the module a form is given was compiled from that form and those options.

The real jit.py and compiler.py run over a recording C compiler and a code generator that
writes down what it was asked for. Forms that differ little are compiled in random order
into shared cache directories, with compilers that fail, are slow, or are entered by
several processes at once; what is returned, and what is left behind, is compared with
the forms themselves."""
import io
import json
import logging
import os
import pickle
import shutil
import sys
import sysconfig
import tempfile
import time
import types

import numpy as np

from drivers.mon import Monitor, use_stubs

mon = Monitor()
use_stubs()
import basix.ufl  # noqa
import cffi  # noqa
import dolfinx.fem  # noqa
import ffcx.codegeneration.jit as fjit  # noqa
import ffcx.ir.representation  # noqa
import ufl  # noqa
from mpi4py import MPI  # noqa
from drivers.simplemesh import some_mesh  # noqa

SHIM = types.ModuleType("qugar.dolfinx._shim")
SHIM.ensure_built = lambda *a, **k: ("/where/the/shim/is", "qugarshim_k07")
sys.modules["qugar.dolfinx._shim"] = SHIM
import qugar.dolfinx  # noqa
import ffcx.ir  # noqa
from qugar.dolfinx import boundary  # noqa
from qugar.dolfinx.boundary import ParamNormal, ds_bdry_unf  # noqa


def fake_ir(analysis, object_names, prefix, options, visualise=False):
    return types.SimpleNamespace(analysis=analysis, prefix=prefix, options=dict(options))


ffcx.ir.representation.compute_ir = fake_ir
from qugar.dolfinx import codegeneration, compiler, jit  # noqa

rng = mon.nprng("k07")
FAIL = {"codegen": False}


class Broken(Exception):
    pass


# ------------------------------------------------------------ what a form is
def walk(e, coeffs, consts):
    if e.ufl_operands:
        return [type(e).__name__, getattr(e, "_i", None)] + [walk(o, coeffs, consts) for o in e.ufl_operands]
    if isinstance(e, ufl.Constant):
        return ["normal" if isinstance(e, ParamNormal) else "constant", list(e.ufl_shape), [c is e for c in consts].index(True)]
    if isinstance(e, ufl.Coefficient):
        return ["coefficient", repr(e.ufl_function_space().ufl_element()), [c is e for c in coeffs].index(True)]
    if isinstance(e, ufl.Argument):
        return ["argument", e.number(), repr(e.ufl_function_space().ufl_element())]
    if hasattr(e, "_value"):
        return ["number", repr(e._value)]
    return [type(e).__name__]


def describe(form):
    co, cn = form.coefficients(), form.constants()
    return [[i.integral_type(), repr(i.subdomain_id()), sorted((k, str(v)) for k, v in i.metadata().items()),
             repr(i.ufl_domain().ufl_coordinate_element()), walk(i.integrand(), co, cn)] for i in form.integrals()]


def plain(o):
    return {k: (np.dtype(v).name if k == "scalar_type" else v) for k, v in o.items() if k != "custom"}


def text(form, options):
    return json.dumps([describe(form), sorted((k, repr(v)) for k, v in plain(options).items())])


def generate_code(analysis, ir, options):
    if FAIL["codegen"]:
        raise Broken("code generator")
    blocks, itg = [], []
    for n, (form, scalar) in enumerate(analysis.form_data):
        t = text(form, options)
        blocks.append((f"/* decl {n} */\n", f"@@{n}@@{ir.prefix}@@{t}\n"))
        itg.append([n, ir.prefix, t])
    return blocks, itg


codegeneration.generate_code = generate_code


# ------------------------------------------------------------ the forms
def families():
    kind = str(rng.choice(["triangle", "quadrilateral", "tetrahedron", "hexahedron"]))
    mesh = some_mesh(rng, kind)
    d = mesh.topology.dim
    P = [ufl.FunctionSpace(mesh.ufl_domain(), basix.ufl.element("Lagrange", kind, k)) for k in (1, 2)]
    W = [ufl.FunctionSpace(mesh.ufl_domain(), basix.ufl.element("Lagrange", kind, k, shape=(d,))) for k in (1, 2)]
    vec = lambda: dolfinx.fem.Constant(mesh, np.arange(d) + 1.0)
    sca = lambda: dolfinx.fem.Constant(mesh, 2.5)
    nrm = lambda: ParamNormal(mesh)
    either = [vec, nrm]
    v, v2, w, w2 = ufl.TestFunction(P[0]), ufl.TestFunction(P[1]), ufl.TestFunction(W[0]), ufl.TestFunction(W[1])
    ds = ds_bdry_unf(domain=mesh)
    dx, dsx = ufl.Measure("dx", domain=mesh), ufl.Measure("ds", domain=mesh)
    I = lambda x, t: x[0] * t + 3.0 * x[d - 1] * t

    def two(a, b):
        x, y = a(), b()
        return (I(x, w) * v0(x) + 2.0 * I(y, w)) * dx

    v0 = lambda x: x[0]
    fams = [
        ("normal-or-constant", [lambda a=a: I(a(), w) * ds for a in either]),
        ("normal-or-constant-dx", [lambda a=a: I(a(), w2) * dx for a in either]),
        ("which-of-two", [lambda a=a, b=b: two(a, b) for a in either for b in either]),
        ("component", [lambda a=a, i=i: a()[i] * v * dsx for a in either for i in range(d)]),
        ("space", [lambda t=t: I(nrm(), t) * ds for t in (w, w2)]),
        ("subdomain", [lambda s=s: v * ds_bdry_unf(domain=mesh, subdomain_id=s) for s in (1, 2, (1, 2))]),
        ("degree", [lambda k=k: v * ds_bdry_unf(domain=mesh, degree=k) for k in (1, 2, 5)]),
        ("measure", [lambda m=m: sca() * v * m for m in (dx, dsx, ds)]),
        ("coefficient", [lambda s=s: ufl.Coefficient(s) * v2 * dx for s in P]),
        ("factor", [lambda c=c: c * v * dx for c in (1.0, 2.0)]),
        ("sum", [lambda a=a, b=b: I(a(), w) * ds + I(b(), w) * dx for a in either for b in either]),
    ]
    return kind, fams


OPTS = [{}, {"scalar_type": np.float32}, {"scalar_type": np.float64}, {"scalar_type": "complex128"}, {"sum_factorization": True},
        {"table_rtol": 1e-4}]
ARGS = [[], ["-O2"], ["-O2", "-march=native"], ["-march=native", "-O2"], ["-O0", "-O2"], ["-O2", "-O0"], ["-O0", "-O2", "-O0"]]


# ------------------------------------------------------------ the compiler
class Hook:
    def __init__(self):
        self.builds, self.fail, self.slow, self.slow_link, self.env = [], None, 0.0, 0.0, []

    def __call__(self, ffi, d, debug):
        self.builds.append(ffi._name)
        self.env.append(os.environ.get("LDSHARED"))
        if self.slow:
            time.sleep(self.slow)
        if self.fail:
            raise self.fail


hook = Hook()
cffi.hook = hook


def surroundings():
    root = logging.getLogger()
    return dict(handlers=list(root.handlers), stdout=sys.stdout, ldshared=os.environ.get("LDSHARED"),
                libraries=list(jit._libraries), cwd=os.getcwd(), level=root.level)


def same_around(a, what):
    b = surroundings()
    for k in a:
        mon.check(a[k] == b[k] if k != "stdout" else a[k] is b[k], f"left-behind/{k}/{what}", f"{k}: {a[k]!r} became {b[k]!r} after a {what}")


def pieces(src):
    """what the module's source says it was generated from"""
    return [p.split("@@")[1:] for p in src.strip().splitlines() if p.startswith("@@")]


def judge(tag, forms, options, args, debug, libs, objs, mod, code, itg):
    full = dict(fjit_options(options))
    want = [text(f, full) for f in forms]
    if not mon.check(len(objs) == len(forms), f"{tag}/number", lambda: f"{len(objs)} objects for {len(forms)} forms"):
        return
    for n, (o, t) in enumerate(zip(objs, want)):
        got = pieces(o.source)
        mine = [g for g in got if g[0] == str(n)]
        ok = len(mine) == 1 and mine[0][2] == t
        mon.check(ok, f"{tag}/other-form", lambda: f"form {n}: the compiled kernels are those of {mine}, expected {t}", cls=f"{tag}/form")
        mon.check(o.module == mod.name and len(got) == len(forms), f"{tag}/module", lambda: f"{o.module} {mod.name} {len(got)}")
        mon.check(mine and mine[0][1] == o.module, f"{tag}/prefix", lambda: f"prefix {mine} of module {o.module}")
    o = objs[0]
    mon.check(len({x.name for x in objs}) == len(objs), f"{tag}/names", lambda: f"{[x.name for x in objs]}")
    mon.check(itg == [[n, mod.name, t] for n, t in enumerate(want)], f"{tag}/itg-data", lambda: f"integral data {itg}, expected {want}")
    mon.check(len(code) == 2 and pieces(code[1]) == pieces(o.source), f"{tag}/code", lambda: f"returned code {code[1][:300]}")
    kw = o.kw
    link = kw.get("extra_link_args", [])
    a = kw.get("extra_compile_args", [])
    mon.check(a[len(a) - len(args):] == args and o.debug == debug, f"{tag}/compile-args", lambda: f"{a} {o.debug}, asked for {args} {debug}")
    d, n = SHIM.ensure_built()
    mon.check((n in kw.get("libraries", []) and d in kw.get("library_dirs", [])) or any(n in x and d in x for x in link), f"{tag}/shim",
              lambda: f"the shim is not linked: {kw}")
    mon.check(any("rpath" in x and d in x for x in link) or d in kw.get("runtime_library_dirs", []) or any(x.startswith(d) for x in link),
              f"{tag}/rpath", lambda: f"the shim is not found at run time: {kw}")
    mon.check("m" in kw.get("libraries", []), f"{tag}/libm", lambda: f"{kw}")
    if libs is not None:
        mon.check(all(x in kw.get("libraries", []) for x in libs), f"{tag}/libs", lambda: f"{kw} lacks {libs}")
    mon.check(np.dtype(full["scalar_type"]).name in o.cdef, f"{tag}/scalar", lambda: f"{o.cdef} for {full['scalar_type']}")


def fjit_options(o):
    import ffcx.options
    return ffcx.options.get_options(o)


def frozen(x):
    return repr(sorted(x.items(), key=lambda t: t[0])) if isinstance(x, dict) else repr(x)


def call(tag, forms, options, args, debug, libs, cache, comm, timeout=2):
    """forms: one through ffcx_jit (as form_custom does), several through compile_forms"""
    snaps = [describe(f) for f in forms]
    jo = dict(cffi_extra_compile_args=list(args), cffi_debug=debug, cache_dir=cache, timeout=timeout)
    if libs is not None:
        jo["cffi_libraries"] = list(libs)
    before = (frozen(options), frozen(jo))
    try:
        if len(forms) == 1 and rng.random() < 0.7:
            itg, obj, mod, code = jit.ffcx_jit(comm, forms[0], form_compiler_options=options, jit_options=jo)
            objs = [obj]
        else:
            objs, mod, code, itg = jit.compile_forms(list(forms), options=options, **jo)
    finally:
        mon.check((frozen(options), frozen(jo)) == before, f"{tag}/options-changed", lambda: f"{before} became {options} {jo}")
        mon.check([describe(f) for f in forms] == snaps, f"{tag}/form-changed", "the form was changed")
    return objs, mod, code, itg


def history():
    kind, fams = families()
    comm = MPI.COMM_WORLD
    tmp = tempfile.mkdtemp(prefix="vq_k07_")
    root = logging.getLogger()
    mine = [logging.StreamHandler(io.StringIO()) for _ in range(int(rng.integers(0, 3)))]
    old = root.handlers[:]
    root.handlers = root.handlers + mine
    saved = os.environ.get("LDSHARED")
    if rng.random() < 0.5:
        os.environ["LDSHARED"] = "my-linker -shared"
    elif "LDSHARED" in os.environ:
        del os.environ["LDSHARED"]
    hook.__init__()
    try:
        caches = [os.path.join(tmp, "a"), os.path.join(tmp, "b", "c"), None]
        name, fam = fams[int(rng.integers(len(fams)))]
        pool = [(name, f()) for f in fam]
        pool += [(n, fs[int(rng.integers(len(fs)))]()) for n, fs in fams if rng.random() < 0.25]
        order = [int(rng.integers(len(pool))) for _ in range(3)] + list(rng.permutation(len(pool)))
        opts = [OPTS[int(k)] for k in rng.choice(len(OPTS), 2, replace=False)]
        done = set()
        for step, k in enumerate(order):
            fams_ = [pool[k]]
            if rng.random() < 0.2:
                fams_.append(pool[int(rng.integers(len(pool)))])
            forms = [f for _, f in fams_]
            n = fams_[0][0]
            o = dict(opts[int(rng.random() < 0.25)])
            args = ARGS[int(rng.integers(len(ARGS)))] if rng.random() < 0.5 else []
            debug = bool(rng.random() < 0.15)
            libs = [None, [], ["mylib"]][int(rng.choice(3, p=[0.6, 0.2, 0.2]))]
            cache = caches[int(rng.choice(3, p=[0.7, 0.2, 0.1]))]
            ident = (tuple(id(f) for f in forms), repr(sorted(o.items())), tuple(args), debug, cache)
            around = surroundings()
            fault = rng.random()
            key = None
            if fault < 0.15 and (cache is None or ident not in done):
                where = "codegen" if fault < 0.06 else "compiler"
                FAIL["codegen"] = where == "codegen"
                hook.fail = cffi.VerificationError("cc failed") if where == "compiler" else None
                nb = len(hook.builds)
                try:
                    r = call("failing", forms, o, args, debug, libs, cache, comm)
                except (Broken, cffi.VerificationError):
                    mon.see(f"failing/{where}/raised")
                else:
                    # an equal form may have been compiled before
                    if where == "codegen" or len(hook.builds) > nb:
                        mon.bad(f"failing/{where}/swallowed", f"the failure of the {where} was not reported: {r[0]}")
                finally:
                    FAIL["codegen"], hook.fail = False, None
                same_around(around, "failure")
                key = "retry"
            nb = len(hook.builds)
            with mon.case(f"history/{n}", data=dict(family=n, step=step), limit=60):
                out = call(n, forms, o, args, debug, libs, cache, comm)
                # as in FFCx, the libraries do not name the module: only a module built now has them
                judge(n, forms, o, args, debug, libs if len(hook.builds) > nb else None, *out)
                same_around(around, "compilation")
                if cache is not None and ident in done:
                    mon.check(len(hook.builds) == nb, f"{n}/recompiled", "a form already compiled into this cache was compiled again",
                              cls=f"{n}/from-cache")
                done.add(ident)
                if key:
                    mon.see(f"{key}/{n}")
                mon.see(f"history/{kind}/{n}/{len(forms)}/{'cache' if cache else 'none'}/{'hit' if len(hook.builds) == nb else 'built'}")
        raw = (sysconfig.get_config_var("LDSHARED") or "").split()
        for e in hook.env:
            mon.check(e is not None and set(e.split()) == set(raw) and e.split()[:1] == raw[:1] or not raw, "linker", lambda: f"linker {e!r} for {raw}")
    finally:
        root.handlers = old
        if saved is None:
            os.environ.pop("LDSHARED", None)
        else:
            os.environ["LDSHARED"] = saved
        shutil.rmtree(tmp, ignore_errors=True)


def standard_module():
    """A form that DOLFINx itself has compiled into the same cache: its module holds the
    kernels of ordinary quadrature."""
    import ffcx.naming
    kind, fams = families()
    tmp = tempfile.mkdtemp(prefix="vq_k07_")
    hook.__init__()
    try:
        for n, fs in fams:
            if rng.random() < 0.6:
                continue
            form = fs[0]()
            o = dict(OPTS[int(rng.integers(len(OPTS)))])
            p = fjit_options(o)
            name = "libffcx_forms_" + ffcx.naming.compute_signature([form], fjit._compute_option_signature(p) + fjit._compilation_signature([], False))
            obj = [ffcx.naming.form_name(form, 0, name)]
            from pathlib import Path
            if fjit.get_cached_module(name, obj, tmp, 1)[0] is None:
                with open(Path(tmp) / (name + ".built"), "w") as f:
                    json.dump(dict(source="@@0@@ordinary@@ordinary kernels\n", cdef=f"extern ufcx_form {obj[0]};\n", kw={}, debug=False), f)
                (Path(tmp) / (name + ".c.cached")).write_text("")
            with mon.case(f"standard/{n}", limit=60):
                out = call("standard", [form], o, [], False, None, tmp, MPI.COMM_WORLD)
                judge("standard", [form], o, [], False, None, *out)
                mon.see(f"standard/{n}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def together(case):
    """Several processes ask for the same form at the same time."""
    kind, fams = families()
    n, fs = fams[int(rng.integers(len(fams)))]
    forms = [f() for f in fs]
    tmp = tempfile.mkdtemp(prefix="vq_k07_")
    seeds = rng.integers(1 << 30, size=4)
    kids = []
    same = rng.random() < 0.6
    slow, slow_link = float(rng.choice([0.0, 0.1])), float(rng.choice([0.05, 0.2]))
    try:
        for i in range(4):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = None
                try:
                    g = np.random.default_rng(int(seeds[i]))
                    hook.__init__()
                    hook.slow, hook.slow_link = slow, slow_link
                    time.sleep(float(g.choice([0.0, 0.02, 0.1])))
                    f = forms[0] if same else forms[i % len(forms)]
                    jo = dict(cache_dir=tmp, timeout=20)
                    itg, obj, mod, code = jit.ffcx_jit(MPI.COMM_WORLD, f, form_compiler_options={}, jit_options=jo)
                    res = ("ok", vars(obj), vars(mod), code, itg, hook.builds)
                except BaseException as e:  # noqa
                    res = ("raised", repr(e))
                os.write(w, pickle.dumps(res))
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        built = {}
        for i, (pid, r) in enumerate(kids):
            data = b""
            while True:
                c = os.read(r, 1 << 16)
                if not c:
                    break
                data += c
            os.close(r)
            os.waitpid(pid, 0)
            res = pickle.loads(data)
            f = forms[0] if same else forms[i % len(forms)]
            if not mon.check(res[0] == "ok", f"together/{res[1].split('(')[0] if res[0] != 'ok' else ''}", lambda: f"process {i}: {res}",
                             cls="together/answered"):
                continue
            _, obj, mod, code, itg, builds = res
            ns = types.SimpleNamespace
            judge("together", [f], {}, [], False, None, [ns(**obj)], ns(**mod), code, itg)
            for b in builds:
                built[b] = built.get(b, 0) + 1
        for b, k in built.items():
            mon.check(k == 1, "together/compiled-twice", f"{k} processes compiled {b} at once", cls="together/once")
        mon.see(f"together/{n}/{'same' if same else 'different'}/{slow}/{slow_link}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def refused():
    kind, fams = families()
    for x in (3, "form", ufl.FunctionSpace, fams[0][1][0]().integrals()[0].integrand(), None):
        try:
            jit.ffcx_jit(MPI.COMM_WORLD, x)
        except Exception:
            mon.see("refused/" + type(x).__name__)
        else:
            mon.bad("refused", f"{x!r} was compiled")


def main():
    for _ in range(mon.scale(40, 400)):
        history()
    for _ in range(mon.scale(6, 40)):
        standard_module()
    for c in range(mon.scale(12, 100)):
        together(c)
    refused()
    mon.done()


main()
