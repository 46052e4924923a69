"""Compiling C++ for the checks: objects are cached by the content of everything
that went into them (preprocessed text), so that a change in /repo is always seen."""
import concurrent.futures as cf, hashlib, os, subprocess, tempfile
from lib import core

CACHE = os.path.join(core.CACHE, "obj")


class BuildError(core.Inconclusive):
    pass


def _run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
    return p.returncode, p.stdout, p.stderr.decode(errors="replace")


def compile_obj(src, flags, cxx="g++"):
    os.makedirs(CACHE, exist_ok=True)
    # -P drops line markers: the text alone decides (assert's line numbers stay in).
    rc, pre, err = _run([cxx, *flags, "-E", src])
    if rc:
        raise BuildError(f"preprocessing {src}: {err[-3000:]}")
    h = hashlib.sha256()
    h.update(repr((cxx, flags)).encode())
    h.update(pre)
    obj = os.path.join(CACHE, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=CACHE)
        os.close(fd)
        rc, _, err = _run([cxx, *flags, "-c", src, "-o", tmp])
        if rc:
            os.unlink(tmp)
            raise BuildError(f"compiling {src}: {err[-3000:]}")
        os.replace(tmp, obj)
    return obj


def compile_many(srcs, flags, cxx="g++", jobs=8):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda s: compile_obj(s, flags, cxx), srcs))


def link(objs, flags, name, cxx="g++"):
    h = hashlib.sha256(repr((cxx, flags, objs)).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, f"{name}.{h}.exe")
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(suffix=".exe", dir=CACHE)
        os.close(fd)
        rc, _, err = _run([cxx, *objs, *flags, "-o", tmp])
        if rc:
            os.unlink(tmp)
            raise BuildError(f"linking {name}: {err[-3000:]}")
        os.chmod(tmp, 0o755)
        os.replace(tmp, exe)
    return exe


def prune(max_bytes=1_500_000_000):
    try:
        fs = [(os.stat(os.path.join(CACHE, f)).st_atime, os.path.join(CACHE, f)) for f in os.listdir(CACHE)]
    except FileNotFoundError:
        return
    total = sum(os.path.getsize(f) for _, f in fs)
    for _, f in sorted(fs):
        if total <= max_bytes:
            break
        total -= os.path.getsize(f)
        os.unlink(f)
