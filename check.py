#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed S]
                     [--workers N]
   check.py --replay FILE
   check.py --digests PROPERTY ...   print per-run event-log digests"""

import argparse
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}


def reexec():
    if os.environ.get("H800SIM") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    env["H800SIM"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] +
              sys.argv[1:], env)


def main():
    reexec()
    os.environ.pop("H800SIM", None)
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import core
    if a.replay:
        return core.replay(os.path.abspath(a.replay))
    if a.selftest:
        core.prepare()
        print("simulator ready, %s" % sys.version.split()[0])
        return 0
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.digests:
        core.prepare()
        res, _ = core.run_batch(a.property, seed, tier, a.runs or 50,
                                a.workers, 3000, True)
        d = {}
        for r in res:
            if r.get("error"):
                print("ERROR", r["error"])
                return 2
            d.update(r["digests"])
        for i in sorted(d):
            print(a.property, seed, i, d[i])
        return 0
    return core.check(a.property, tier, seed, a.workers, a.runs)


if __name__ == "__main__":
    sys.exit(main())
