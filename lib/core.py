"""Shared plumbing of all checks: running drivers, collecting what the monitors
observed, comparing violations with the known findings, writing evidence."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".out")
CACHE = os.path.join(VERIF, ".cache")
VENV = "/opt/qugar-venv"
PY = VENV + "/bin/python"
BASIX_LIBS = VENV + "/lib/python3.12/site-packages/fenics_basix.libs"
BASIX_DIR = VENV + "/lib/python3.12/site-packages"


class Inconclusive(Exception):
    pass


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' suppresses the
    violations whose key equals <key>; 'fixed: ...' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                known.setdefault(m[1], {})[m[2]] = m[3].strip()
    return known


class Ctx:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.assumptions = []
        self.rule = ""
        self.violations = []     # (key, message, data)
        self.new_violations = []
        self.known_hit = {}
        self.known = load_known().get(prop, {})
        self.level = "exploration"
        os.makedirs(OUT, exist_ok=True)

    # ---- what monitors report -------------------------------------------
    def merge(self, res):
        """Merges the JSON result of a driver."""
        self.evaluations += res.get("evaluations", 0)
        self.distinct.update(res.get("distinct", []))
        for k, v in res.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in res.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)
        for v in res.get("violations", []):
            self.violation(v["key"], v["msg"], v.get("data"))

    def violation(self, key, msg, data=None):
        self.violations.append((key, msg, data))

    # ---- end of run ------------------------------------------------------
    def finish(self, wall):
        shown = 0
        seen = set()
        for key, msg, data in self.violations:
            if key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
                continue
            self.new_violations.append((key, msg))
            if key in seen or shown >= 20:
                continue
            seen.add(key)
            shown += 1
            d = os.path.join(OUT, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{shown}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "key": key,
                           "message": msg, "data": data}, f, indent=1, default=str)
            print(f"  {key}: {msg}"[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
        for key, text in self.known.items():
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {text} [{key}, seen {self.known_hit[key]}x]")
        if self.evaluations == 0 and not self.new_violations:
            raise Inconclusive("no event was observed")
        self.write_evidence(wall)
        print(f"{self.prop} {self.tier}: {self.evaluations} observations, {len(self.distinct)} distinct, "
              f"{len(self.new_violations)} violations, {wall:.1f}s")

    def write_evidence(self, wall, note=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule or "distinct (behaviour class, parameter class) keys reported by the monitors",
                "samples": self.samples[:12] or sorted(self.distinct)[:12],
                "counters": self.counters,
            },
            "wall_s": round(wall, 3),
            "assumptions": self.assumptions,
            "violations": len(self.new_violations),
        }
        if self.known_hit:
            ev["known_findings_seen"] = self.known_hit
        if note:
            ev["note"] = note
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def inconclusive(self, why, wall):
        try:
            self.write_evidence(wall, note="inconclusive: " + why)
        except Exception:
            pass

    # ---- running drivers ---------------------------------------------------
    def scale(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def env(self, **extra):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        e.update(LD_LIBRARY_PATH=BASIX_LIBS, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 OPENBLAS_NUM_THREADS="1", VERIF_REPO=REPO, VERIF_DIR=VERIF, CXX="/opt/vp/cxx",
                 VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        e.update(extra)
        return e

    def py_driver(self, module, args=None, timeout=600, parts=1, **extra):
        """Runs /verif/drivers/<module>.py under the venv (parts processes, each with
        its own part number), merges their results. A crash of a driver is reported
        by the driver itself when the code under test is to blame; anything else is
        inconclusive."""
        procs = []
        for part in range(parts):
            fd, out = tempfile.mkstemp(suffix=".json", prefix="vq_")
            os.close(fd)
            spec = dict(args or {}, seed=self.seed, tier=self.tier, part=part, parts=parts, out=out,
                        replay=(self.replay or {}).get("data"))
            env = self.env(**extra)
            env["VERIF_SPEC"] = json.dumps(spec)
            env["PYTHONPATH"] = VERIF
            p = subprocess.Popen([PY, "-X", "faulthandler", "-m", "drivers." + module], cwd=VERIF, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, out))
        bad = None
        t_end = time.time() + timeout
        for p, out in procs:
            try:
                txt, _ = p.communicate(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                txt, _ = p.communicate()
                bad = f"driver {module} timed out"
            try:
                with open(out) as f:
                    self.merge(json.load(f))
            except Exception:
                bad = bad or f"driver {module} gave no result (rc={p.returncode})"
                print(txt.decode(errors="replace")[-6000:])
            else:
                if p.returncode != 0:
                    bad = bad or f"driver {module} rc={p.returncode}"
                    print(txt.decode(errors="replace")[-6000:])
            os.unlink(out)
        if bad and not self.violations:
            raise Inconclusive(bad)
