"""Running native drivers that print SEEN/BAD/DONE lines, under sanitizers."""
import concurrent.futures as cf, os, re, resource, signal, subprocess, time
from lib import core

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1",
}
SUMMARY = re.compile(r"(?:SUMMARY: |runtime error: |terminate called|what\(\):|Assertion .* failed)[^\n]*")


# A process of the quick tier needs about half a minute of processor time at most; one
# that uses ten times as much does not come back.
CPU_LIMIT = 300
# On a loaded machine the quick tier runs fewer processes rather than giving no answer.
QUICK_START, QUICK_END = 400, 780


def _limit():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_one(exe, args, timeout, extra_env=None):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    env.update(SAN_ENV, LD_LIBRARY_PATH=core.BASIX_LIBS, OPENBLAS_NUM_THREADS="1")
    env.update(extra_env or {})
    try:
        p = subprocess.run([exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout,
                           preexec_fn=_limit)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), "timeout"


def run_many(ctx, jobs, timeout=600, workers=8, key_of=None):
    """jobs: (label, exe, args). Each process' SEEN lines are observations, its BAD
    lines violations; a sanitizer report, an abort or an escaping exception too."""
    inconcl = []
    quick = ctx.tier != "thorough"

    def one(j):
        t = timeout
        if quick:
            gone = time.time() - ctx.t0
            if gone > QUICK_START:
                return j, ("skipped", "", "")
            t = min(t, QUICK_END - gone)
        r = run_one(j[1], j[2], t, j[3] if len(j) > 3 else None)
        if r[0] is None and quick and time.time() - ctx.t0 >= QUICK_END - 1:
            r = ("cut", r[1], r[2])
        return j, r

    # a little of everything first
    groups = {}
    for j in jobs:
        groups.setdefault(j[0], []).append(j)
    jobs = []
    while any(groups.values()):
        jobs += [g.pop(0) for g in groups.values() if g]
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, jobs))
    for job, (rc, out, err) in res:
        label, args = job[0], list(job[2])
        done = False
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "SEEN":
                ctx.evaluations += int(f[1])
                ctx.distinct.add(f"{f[2]}")
                ctx.counters[label + " observations"] = ctx.counters.get(label + " observations", 0) + int(f[1])
            elif f[0] == "COUNT":
                ctx.counters[f[2]] = ctx.counters.get(f[2], 0) + int(f[1])
            elif f[0] == "BAD":
                ctx.violation(f[1].replace(" ", "_"), f"[{label} {args}] {f[1]}: {f[2]}", {"label": label, "args": args})
            elif f[0] == "DONE":
                done = True
        if rc in ("skipped", "cut"):
            k = f"processes {rc} for lack of time"
            ctx.counters[k] = ctx.counters.get(k, 0) + 1
        elif rc == -signal.SIGXCPU:
            ctx.violation("hang:" + label.replace(" ", "_"), f"[{label} {args}] did not end within {CPU_LIMIT} s of processor time",
                          {"label": label, "args": args})
        elif rc is None:
            inconcl.append(f"{label} {args} timed out")
        elif rc == 9:
            inconcl.append(f"{label} {args}: bad usage")
        elif rc != 0 or not done:
            m = SUMMARY.search(err)
            what = (m[0] if m else f"ended with rc={rc}")[:300]
            key = re.sub(r"0x[0-9a-f]+|\d+|/\S*/", "", what)[:80].strip().replace(" ", "_")
            ctx.violation("abnormal:" + key, f"[{label} {args}] {what}\n" + err[-2500:], {"label": label, "args": args})
    if inconcl and not ctx.violations:
        raise core.Inconclusive("; ".join(inconcl[:3]))
    return res
