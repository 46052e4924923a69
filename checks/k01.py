import glob, os, shutil, subprocess, tempfile

from lib import core


def sanitized(ctx, what, parts, timeout=850):
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ubsan = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    logs = tempfile.mkdtemp(prefix="vq_log_")
    try:
        log = os.path.join(logs, "san")
        opt = f"log_path={log}:halt_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0"
        ctx.py_driver("kern", dict(what=what), timeout=timeout, parts=parts, LD_PRELOAD=f"{os.path.realpath(asan)} {os.path.realpath(ubsan)}",
                      ASAN_OPTIONS=opt, UBSAN_OPTIONS=f"log_path={log}:halt_on_error=0:print_stacktrace=0", KERN_LOG=log)
    except core.Inconclusive as e:
        if "timed out" in str(e):
            raise
        # did a generated kernel take the process down?
        died = [open(f).read() for f in sorted(glob.glob(log + ".cur.*"))]
        for d in filter(None, died):
            ctx.violation("crash/" + d.split()[0], "the process died in the generated kernel: " + d[:1200])
        if not any(died):
            raise
    finally:
        shutil.rmtree(logs, ignore_errors=True)


def run(ctx):
    ctx.rule = ("distinct (integral type, cell, scalar type, rank, rules, unfitted or mixed, run-time points per rule, "
                "static points per rule) whose tensor agreed with the direct evaluation")
    ctx.assumptions = ["the form compiler is a stand-in writing kernels in its layout (tables, loops, sections)",
                       "random classification and quadratures replace the geometry"]
    sanitized(ctx, "custom", 8)
