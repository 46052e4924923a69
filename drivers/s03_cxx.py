#!/usr/bin/python3
"""Stand-in compiler of the S03 scenarios. Like a linker it removes an existing output
first and then writes it piece by piece; what it writes names the contents of the
sources it was given. Plans say how each successive run goes."""
import hashlib, json, os, signal, sys, time

cfg = os.path.dirname(os.path.abspath(sys.argv[0]))
argv = sys.argv[1:]
out, srcs = None, []
i = 0
while i < len(argv):
    a = argv[i]
    if a == "-o":
        out = argv[i + 1]
        i += 1
    elif a.startswith("-o"):
        out = a[2:]
    elif a.endswith(".cpp"):
        srcs.append(a)
    i += 1


def log(**ev):
    ev["t"] = time.monotonic()
    fd = os.open(os.path.join(cfg, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(ev) + "\n").encode())
    os.close(fd)


# number of this run, atomically
n = 0
while True:
    try:
        os.close(os.open(os.path.join(cfg, f"run{n}"), os.O_CREAT | os.O_EXCL))
        break
    except FileExistsError:
        n += 1
plan = json.load(open(os.path.join(cfg, "plan.json")))
p = plan[min(n, len(plan) - 1)]
log(ev="cc-start", n=n, ppid=os.getppid(), plan=p, ok=bool(out and srcs))
tag = hashlib.sha1(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
body = f"BEGIN {tag} " + "x" * 4000 + " END"
pieces = p.get("pieces", 6)
stop_at = p.get("stop_at", pieces)
try:
    os.unlink(out)
except FileNotFoundError:
    pass
with open(out, "wb") as f:
    for k in range(pieces):
        if k == stop_at:
            break
        f.write(body[len(body) * k // pieces: len(body) * (k + 1) // pieces].encode())
        f.flush()
        time.sleep(p.get("time", .2) / pieces)
how = p.get("how", "ok")
if how == "ok":
    os.chmod(out, 0o755)
    log(ev="cc-ok", n=n)
elif how == "fail":
    log(ev="cc-fail", n=n)
    if p.get("tidy"):
        os.unlink(out)
    sys.exit(1)
elif how == "killed":
    log(ev="cc-killed", n=n)
    os.kill(os.getpid(), signal.SIGKILL)
elif how == "killparent":
    log(ev="cc-killparent", n=n)
    os.kill(os.getppid(), signal.SIGKILL)   # the caller this scenario started
    if p.get("orphan"):
        time.sleep(.05)
        with open(out, "ab") as f:
            f.write(b"orphan")
    else:
        os.kill(os.getpid(), signal.SIGKILL)
