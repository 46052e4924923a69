"""Dense stand-ins for one of several processes; numbers go wrong when a required assembly or
update is left out: part of what is assembled into a vector waits in its ghost entries
for the update that adds it to the owner's."""
import contextlib
import numpy as np

_rng = np.random.default_rng(5)
ScalarType = np.float64


class InsertMode:
    INSERT, ADD = "insert", "add"


class ScatterMode:
    FORWARD, REVERSE = "forward", "reverse"


class Vec:
    def __init__(self, v):
        self.v, self.ghosts, self._local = v, np.zeros(np.shape(v)), False

    def add(self, w):
        part = _rng.random(np.shape(w))
        self.v += (1 - part) * w
        self.ghosts += part * w

    @contextlib.contextmanager
    def localForm(self):
        self._local = True
        yield self
        self._local = False

    def set(self, a):
        self.v[...] = a
        if self._local:
            self.ghosts[...] = a

    @property
    def array_w(self):
        return self.v

    @property
    def array(self):
        return self.v

    def ghostUpdate(self, addv=None, mode=None):
        if mode == ScatterMode.REVERSE and addv == InsertMode.ADD:
            # PETSc leaves the ghosts as they are
            self.v += self.ghosts
        elif mode == ScatterMode.FORWARD and addv == InsertMode.INSERT:
            self.ghosts[...] = 0
        else:
            raise NotImplementedError

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setFromOptions(self):
        pass

    def destroy(self):
        pass


class Mat(Vec):
    def __init__(self, m):
        self.m, self.assembled = m, False

    def zeroEntries(self):
        self.m[...] = 0

    def assemble(self):
        self.assembled = True


class KSP:
    def create(self, comm=None):
        return self

    def setOperators(self, A, P=None):
        self.A = A

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setFromOptions(self):
        self.options = {k: v for k, v in Options.db.items() if k.startswith(self.prefix) and not k[len(self.prefix):][:1].isdigit()}

    def solve(self, b, x):
        if not self.A.assembled:
            raise RuntimeError("Object is in wrong state: not for unassembled matrix")
        x.v[...] = np.linalg.solve(self.A.m, b.v)

    def destroy(self):
        pass


class Options:
    db = {}

    def __init__(self):
        self._p = []

    def prefixPush(self, p):
        self._p.append(p)

    def prefixPop(self):
        self._p.pop()

    def __setitem__(self, k, v):
        Options.db["".join(self._p) + k] = v
