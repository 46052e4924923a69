"""S03: histories of processes and threads asking for the shim library, with slow,
failing and killed builds; an offline checker decides over the recorded events."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from drivers.mon import REPO, VERIF, Monitor

M = Monitor()
SRC = os.path.join(REPO, "python/qugar/dolfinx/_shim")
ROOT = tempfile.mkdtemp(prefix="vq_s03_")


class World:
    def __init__(self, name):
        self.dir = os.path.join(ROOT, name)
        shutil.copytree(SRC, self.dir + "/pkg", ignore=shutil.ignore_patterns("__pycache__"))
        self.init = self.dir + "/pkg/__init__.py"
        self.cpp = [os.path.join(self.dir, "pkg", f) for f in os.listdir(self.dir + "/pkg") if f.endswith(".cpp")][0]
        old = time.time() - 3600
        for f in (self.init, self.cpp):
            os.utime(f, (old, old))
        self.cache = self.dir + M.rng.choice(["/cache", "/a/b/c", "/cache with space"])
        self.cc = self.dir + "/cc"
        os.mkdir(self.cc)
        shutil.copy(os.path.join(VERIF, "drivers/s03_cxx.py"), self.cc + "/c++")
        os.chmod(self.cc + "/c++", 0o755)
        self.k = 0
        self.epoch = 0

    def tag(self):
        return hashlib.sha1(open(self.cpp, "rb").read()).hexdigest()

    def plan(self, *ps):
        json.dump(list(ps), open(self.cc + "/plan.json", "w"))
        for f in os.listdir(self.cc):
            if f.startswith("run") or f == "log":
                os.unlink(os.path.join(self.cc, f))

    def stale(self, what):
        """The source (or the builder) changes after the library was made."""
        time.sleep(.03)
        f = self.cpp if what == "source" else self.init
        with open(f, "a") as h:
            h.write(("// " if what == "source" else "# ") + f"change {self.epoch}\n")
        self.epoch += 1
        time.sleep(.03)

    def round(self, nproc, threads=1, calls=1, spread=0., delays=0., pause=0., look_again=0., timeout=60):
        """Runs nproc callers at once; returns (events, exit codes). A caller that does not
        come back was blocked: a build takes well under a second here."""
        self.k += 1
        go, log = f"{self.dir}/go{self.k}", f"{self.dir}/log{self.k}"
        ps = []
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "CXX": self.cc + "/c++", "QUGAR_SHIM_CACHE": self.cache,
               "PYTHONDONTWRITEBYTECODE": "1"}
        for i in range(nproc):
            job = dict(seed=M.rng.randrange(10**9), log=log, id=i, cache=self.cache, init=self.init, go=go, calls=calls,
                       threads=threads, start=M.rng.random() * spread, delays=delays, pause=pause, look_again=look_again)
            ps.append(subprocess.Popen([sys.executable, os.path.join(VERIF, "drivers/s03_worker.py"), json.dumps(job)], env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True))
        open(go, "w").close()
        end = time.time() + timeout
        rcs, blocked, errs = [], False, b""
        for p in ps:
            try:
                _, e = p.communicate(timeout=max(.1, end - time.time()))
                errs += e
            except subprocess.TimeoutExpired:
                blocked = True
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
            rcs.append(p.returncode)
        time.sleep(.02)
        ev = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
        cc = [json.loads(l) for l in open(self.cc + "/log")] if os.path.exists(self.cc + "/log") else []
        return ev, cc, rcs, blocked, errs.decode(errors="replace")


def judge(sc, w, r, runs=None, errors="none", must_get=True, data=None):
    ev, cc, rcs, blocked, errs = r
    data = dict(scenario=sc, data=data)
    M.count("caller events", len(ev))
    M.count("compiler events", len(cc))
    M.check(not blocked, sc + ":blocked", "a caller never came back (60 s; a build takes 0.3 s)", data, cls=sc + " returns")
    starts = [e for e in cc if e["ev"] == "cc-start"]
    tag = w.tag()
    gets = [e for e in ev if e["ev"] == "got"]
    for e in gets:
        M.check(all(e["complete"]), sc + ":half-built", f"a caller was handed a library that is not complete: {e['content']}"
                f" (compiler runs: {[(x['ev'], x.get('n')) for x in cc]})", data, cls=sc + " complete")
        if all(e["complete"]):
            M.check(all(t == tag for t in e["tag"]), sc + ":stale", "a caller was handed a library built from older sources",
                    data, cls=sc + " up to date")
    er = [e for e in ev if e["ev"] == "error"]
    if errors == "none":
        M.check(not er, sc + ":error", f"a caller got an error: {er[0]['what'] if er else ''}", data, cls=sc + " no error")
    if runs is not None:
        M.check(len(starts) in runs, sc + ":builds", f"{len(starts)} builds were started, expected {sorted(runs)}", data,
                cls=f"{sc} {len(starts)} build(s)")
    if must_get:
        M.check(bool(gets), sc + ":nothing", f"no caller got the library; {er[:1]} {errs[-800:]}", data, cls=sc + " served")
    # builds never overlap in time
    open_, over = set(), False
    for e in sorted(cc, key=lambda e: e["t"]):
        if e["ev"] == "cc-start":
            over = over or bool(open_)
            open_.add(e["n"])
        else:
            open_.discard(e["n"])
    M.check(not over, sc + ":overlap", "two builds ran at the same time", data, cls=sc + " builds apart")
    M.count(f"handed out in {sc}", len(gets))
    return gets, er


OK = dict(how="ok", time=.25)


def cold(w, r):
    n, t = r.choice([2, 4, 8]), r.choice([1, 1, 3])
    w.plan(OK)
    judge("cold", w, w.round(n, t, spread=r.choice([0, .05, .3]), delays=r.choice([0, .01, .03])), runs={1}, data=[n, t])
    w.plan(OK)
    judge("warm", w, w.round(r.choice([1, 4]), 2, calls=2), runs={0})


def late(w, r):
    """callers keep arriving all through the build, and look twice at what they got"""
    w.plan(dict(how="ok", time=.4, pieces=r.choice([3, 10, 20])))
    n = 6
    judge("late", w, w.round(n, 1, calls=6, spread=.4, pause=.01, look_again=.15, delays=r.choice([0, .01])), runs={1})


def stale(w, r):
    w.plan(OK)
    judge("cold", w, w.round(1), runs={1})
    for what in r.sample(["source", "builder", "source"], 3)[:2]:
        w.stale(what)
        w.plan(OK)
        judge("stale-" + what, w, w.round(r.choice([1, 5]), r.choice([1, 2]), calls=3, spread=.3, pause=.02,
                                         delays=r.choice([0, .02])), runs={1})
        w.plan(OK)
        judge("warm", w, w.round(2), runs={0})


def failing(w, r):
    """builds that fail or whose compiler is killed, on a cold or on a stale cache"""
    if r.random() < .5:
        w.plan(OK)
        judge("cold", w, w.round(1), runs={1})
        w.stale("source")
    k = r.choice([1, 2])
    how = r.choice(["fail", "killed"])
    bad = dict(how=how, time=.15, stop_at=r.choice([0, 1, 5, 6]), tidy=r.random() < .3)
    w.plan(bad)
    for _ in range(k):
        ev, er = judge("failed", w, w.round(1), errors="some", must_get=False, data=bad)
        M.check(bool(er) and not ev, "failed:served", "a failed build was not answered with an error", bad, cls=f"{how} answered by an error")
    w.plan(bad, OK)
    n = r.choice([2, 4])
    judge("fail-then-ok", w, w.round(n, 1, calls=2, spread=.1, delays=r.choice([0, .02])), errors="some", runs={2}, data=bad)
    w.plan(OK)
    judge("warm", w, w.round(2), runs={0})


def killed(w, r):
    """the caller that builds is killed, together with its compiler or leaving it behind"""
    if r.random() < .4:
        w.plan(OK)
        judge("cold", w, w.round(1), runs={1})
        w.stale("source")
    bad = dict(how="killparent", time=.15, stop_at=r.choice([0, 1, 4, 5, 6]), orphan=False)
    w.plan(bad, OK)
    ev, cc, rcs, blocked, errs = w.round(1)
    M.check(rcs == [-9], "harness", f"{rcs} {errs}", cls="caller killed while building")
    w.plan(OK)
    judge("after-kill", w, w.round(r.choice([1, 4]), 1, calls=2), runs={1}, data=bad)
    # the same with others waiting
    w.stale("source")
    w.plan(bad, OK)
    judge("kill-while-others-wait", w, w.round(5, 1, calls=2, spread=.1), errors="none", runs={2}, data=bad)
    w.plan(OK)
    judge("warm", w, w.round(2), runs={0})


SC = [cold, late, stale, failing, killed]
try:
    n = M.scale(10, 60)
    for i in range(n):
        sc = SC[(i + M.part) % len(SC)]
        w = World(f"w{i}")
        sc(w, M.rng)
        M.count("histories of kind " + sc.__name__)
        shutil.rmtree(w.dir, ignore_errors=True)
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
M.done()
