"""A compiler of C sources that only notes what it was asked to build: the built module
is a text file next to the source. `hook` (set by a driver) may watch, delay or fail."""
import json
import logging
import os
import time
from pathlib import Path

hook = None


class VerificationError(Exception):
    pass


class FFI:
    def __init__(self):
        self._cdef, self._src, self._name, self._kw = [], None, None, {}

    def cdef(self, text):
        self._cdef.append(text)

    def set_source(self, name, source, **kw):
        self._name, self._src, self._kw = name, source, kw

    def compile(self, tmpdir=".", verbose=0, target=None, debug=None):
        d = Path(tmpdir)
        if not d.is_dir():
            raise FileNotFoundError(str(d))
        logging.getLogger().info("running build_ext")
        print("generating", self._name + ".c")
        (d / (self._name + ".c")).write_text(self._src)
        if hook is not None:
            hook(self, d, debug)
        kw = {k: [str(x) for x in v] for k, v in self._kw.items()}
        out = d / (self._name + ".built")
        txt = json.dumps(dict(source=self._src, cdef="".join(self._cdef), kw=kw, debug=bool(debug)))
        # as a linker does it: piece by piece, in place
        with open(out, "w") as f:
            f.write(txt[:len(txt) // 2])
            f.flush()
            if getattr(hook, "slow_link", 0):
                time.sleep(hook.slow_link)
            f.write(txt[len(txt) // 2:])
        print("built", out)
        return str(out)
