#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

  check.py C01 [--tier quick|thorough] [--seed S] [--runs N] [--seconds T] [--workers W]
  check.py --replay FILE            re-run a replay file (exit 1: the violation happened again)
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}


def reexec():
    if os.environ.get("FEDSIM_EXEC") == "1":
        return
    e = dict(os.environ, FEDSIM_EXEC="1", **WANT)
    if os.environ.get("FEDSIM_HASHSEED"):
        e["PYTHONHASHSEED"] = os.environ["FEDSIM_HASHSEED"]
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="same seed, same trace")
    ap.add_argument("--show", type=int, help="print scenario number N and its trace")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from sim import env
    env.install()
    from sim import engine, fed
    try:
        if a.replay:
            hit, exact = engine.replay(a.replay, a.quiet)
            return 1 if hit and exact else (4 if hit else 0)
        if a.show is not None:
            import json
            mod = engine.load(a.prop)
            engine.prepare(mod)
            scn = engine.scenario(mod, a.seed, a.show)
            print(json.dumps(scn, indent=1))
            r = engine.run_forked(mod, scn, keep_trace=True)
            for t in r.get("trace") or []:
                print("  ", *t)
            r.pop("trace", None)
            print(json.dumps(r, indent=1))
            if r["error"]:
                print(r["error"])
            return 0
        if a.selftest:
            return engine.selftest(a.seed)
        return engine.check(a.prop, a.tier, a.seed, a.runs, a.seconds, a.workers, a.quiet)
    finally:
        fed.cleanup()


if __name__ == "__main__":
    reexec()
    sys.exit(main())
