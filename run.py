#!/usr/bin/env python3
"""Runs one check:  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0  the property held on everything explored
exit 1  a violation that known_findings.txt does not list (VIOLATION line printed)
exit 2  the check could not give an answer (build or harness failure, timeout)
"""
import argparse, importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        a.seed = replay.get("seed", a.seed)
        a.tier = replay.get("tier", a.tier)
    ctx = core.Ctx(a.prop, a.tier, a.seed, replay)
    t0 = time.time()
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
        mod.run(ctx)
        ctx.finish(time.time() - t0)
    except core.Inconclusive as e:
        print(f"INCONCLUSIVE property={a.prop} {e}")
        ctx.inconclusive(str(e), time.time() - t0)
        return 2
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={a.prop} harness error")
        ctx.inconclusive("harness error", time.time() - t0)
        return 2
    return 1 if ctx.new_violations else 0


if __name__ == "__main__":
    sys.exit(main())
