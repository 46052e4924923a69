"""One caller process of the shim builder: loads the module, asks for the library as
told, looks at what it got and appends what happened to the event log."""
import importlib.util, json, os, random, sys, threading, time

job = json.loads(sys.argv[1])
rng = random.Random(job["seed"])
logfd = os.open(job["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)


def log(**ev):
    ev["t"] = time.monotonic()
    ev["who"] = job["id"]
    os.write(logfd, (json.dumps(ev) + "\n").encode())


# injected delays around the calls that decide the outcome of a race
if job.get("delays"):
    import fcntl
    real_stat, real_flock, real_replace = os.stat, fcntl.flock, os.replace
    busy = threading.local()

    def nap():
        if rng.random() < .5:
            time.sleep(rng.random() * job["delays"])

    def stat(p, *a, **k):
        r = real_stat(p, *a, **k)
        if isinstance(p, (str, os.PathLike)) and str(p).startswith(job["cache"]):
            nap()
        return r

    def flock(*a):
        nap()
        r = real_flock(*a)
        nap()
        return r

    def replace(*a, **k):
        nap()
        return real_replace(*a, **k)
    os.stat, fcntl.flock, os.replace = stat, flock, replace

spec = importlib.util.spec_from_file_location("shim_s03", job["init"])
S = importlib.util.module_from_spec(spec)
spec.loader.exec_module(S)
libname = {"darwin": "lib%s.dylib", "win32": "%s.dll"}.get(sys.platform, "lib%s.so")


def call(i):
    log(ev="ask", i=i)
    try:
        d, name = S.ensure_built()
    except BaseException as e:
        log(ev="error", i=i, what=f"{type(e).__name__}: {e}"[:300])
        return
    # what the caller would load, at once and again a little later (mapped libraries
    # must not change under the caller's feet)
    path = os.path.join(str(d), libname % name)
    got = []
    for k in range(2):
        try:
            with open(path, "rb") as f:
                got.append(f.read().decode(errors="replace"))
        except OSError as e:
            got.append(f"<{type(e).__name__}>")
        if k == 0 and job.get("look_again"):
            time.sleep(job["look_again"])
        else:
            break
    log(ev="got", i=i, where=str(d), content=[c[:60] + "|" + c[-60:] for c in got],
        complete=[c.startswith("BEGIN ") and c.endswith(" END") for c in got], tag=[c.split(" ")[1] if c.startswith("BEGIN ") else None for c in got])


while not os.path.exists(job["go"]):
    time.sleep(.002)
time.sleep(job.get("start", 0))
for r in range(job["calls"]):
    ts = [threading.Thread(target=call, args=(f"{r}.{k}",)) for k in range(job["threads"])]
    [t.start() for t in ts]
    [t.join() for t in ts]
    time.sleep(job.get("pause", 0))
