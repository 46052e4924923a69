"""Monitor used inside Python drivers: counts observations, collects violations and
decides whom to blame for an exception."""
import contextlib, enum, json, os, random, signal, sys, traceback

SPEC = json.loads(os.environ.get("VERIF_SPEC", "{}"))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.environ.get("VERIF_DIR", "/verif")


LIMITED = False


class HarnessError(Exception):
    pass


class Monitor:
    def __init__(self):
        self.n = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.viol = []
        self.vkeys = {}
        self.seed = SPEC.get("seed", 1)
        self.tier = SPEC.get("tier", "quick")
        self.part, self.parts = SPEC.get("part", 0), SPEC.get("parts", 1)
        self.rng = random.Random(f"{self.seed}/{self.part}")
        sys.excepthook = self._crash

    def _crash(self, t, e, tb):
        """the driver stumbles: what it has seen until then still counts"""
        traceback.print_exception(t, e, tb)
        if self.viol:
            self.done()
            sys.stderr.flush()
            os._exit(0)

    def nprng(self, *tag):
        import numpy as np
        return np.random.default_rng([self.seed, self.part, *[__import__("zlib").crc32(str(t).encode()) for t in tag]])

    def limit_memory(self, gb):
        """Ten times what the workload needs: code under test asking for more fails"""
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        global LIMITED
        LIMITED = True

    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def see(self, key, n=1):
        """An observation that was compared with the oracle and agreed."""
        self.n += n
        self.distinct.add(key)
        if len(self.samples) < 10 and len(self.distinct) > len(self.samples) * 3:
            self.samples.append(key)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def bad(self, key, msg, data=None):
        self.n += 1
        self.vkeys[key] = self.vkeys.get(key, 0) + 1
        if self.vkeys[key] <= 3:
            self.viol.append({"key": key, "msg": msg, "data": data})

    def check(self, ok, key, msg="", data=None, cls=None):
        if ok:
            self.see(cls or key)
        else:
            self.bad(key, msg() if callable(msg) else msg, data)
        return bool(ok)

    def guard(self, key, fn, *a, data=None, **k):
        """Calls code under test with valid arguments: an exception raised there is a
        violation, unless it comes from a stand-in package lacking something."""
        try:
            return True, fn(*a, **k)
        except HarnessError:
            raise
        except Exception as e:
            if blame_harness(e):
                raise
            self.bad(key, "raised on valid input: " + "".join(traceback.format_exception_only(e)).strip()
                     + " at " + where(e), data)
            return False, None

    @contextlib.contextmanager
    def case(self, key, data=None, limit=180):
        """A scenario with valid input: whatever the code under test raises in it (or
        if it does not come back) is a violation."""
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            yield
        except HarnessError:
            raise
        except Exception as e:
            if unreadable(e):
                self.bad(key + "/unreadable", "the oracle cannot digest the answer: "
                         + "".join(traceback.format_exception_only(e)).strip(), data)
                return
            if blame_harness(e):
                raise
            self.bad(key + "/raised/" + type(e).__name__, "raised on valid input: "
                     + "".join(traceback.format_exception_only(e)).strip() + " at " + where(e), data)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def done(self):
        res = dict(evaluations=self.n, distinct=sorted(self.distinct), counters=self.counters,
                   samples=self.samples, violations=self.viol)
        with open(SPEC["out"], "w") as f:
            json.dump(res, f, default=str)


class Stuck(Exception):
    pass


def _alarm(*a):
    raise Stuck("no answer within the time limit")


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            return f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
    return f"{tb[-1].filename}:{tb[-1].name}" if tb else "?"


def unreadable(e):
    """The comparison itself fails, as on answers of a wrong shape or with unknown keys."""
    if not isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and not any(fr.filename.startswith((REPO, os.path.join(VERIF, "stubs"))) for fr in tb)


def blame_harness(e):
    if isinstance(e, (ImportError, NotImplementedError)) or (isinstance(e, MemoryError) and not LIMITED):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if isinstance(o, enum.Enum):
            return False
        mod = o.__name__ if hasattr(o, "__path__") or type(o).__name__ == "module" else type(o).__module__
        if isinstance(o, type):
            mod = o.__module__
        if mod and mod.split(".")[0] in ("dolfinx", "mpi4py", "ufl", "ffcx", "pyvista", "petsc4py", "drivers", "stubs"):
            return True
        if mod and mod.startswith("qugar.cpp"):
            return True
    tb = traceback.extract_tb(e.__traceback__)
    # no frame of the code under test at all: ours
    return not any(fr.filename.startswith(REPO) for fr in tb)


def add_path(*subs):
    for s in subs:
        p = os.path.join(VERIF, s)
        if p not in sys.path:
            sys.path.insert(0, p)


def use_stubs(run_init=False):
    """Puts the stand-in packages and /repo's package on the path. qugar/__init__ is
    not run (it needs the compiled extension): the package objects are created with
    their real directory, as /opt/vp/qugar_pkg.py does."""
    import types
    if hasattr(sys.modules.get("qugar"), "_is_stub"):
        return sys.modules["qugar"]
    add_path("stubs/py")
    root = os.path.join(REPO, "python", "qugar")
    for name, path in (("qugar", root), ("qugar.dolfinx", root + "/dolfinx")):
        m = types.ModuleType(name)
        m.__path__ = [path]
        sys.modules[name] = m
    sys.modules["qugar"]._is_stub = True
    sys.modules["qugar"].dolfinx = sys.modules["qugar.dolfinx"]
    import qugar_cpp_stub
    sys.modules["qugar.cpp"] = qugar_cpp_stub
    sys.modules["qugar"].cpp = qugar_cpp_stub
    import qugar.utils
    # the gates are V01's business
    qugar.utils.has_FEniCSx = qugar.utils.has_PyVista = True
    sys.modules["qugar"].has_FEniCSx = qugar.utils.has_FEniCSx
    sys.modules["qugar"].has_PyVista = qugar.utils.has_PyVista
    return sys.modules["qugar"]
