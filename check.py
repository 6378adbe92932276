#!/usr/bin/env python3
"""check.py <property id>|all   -- decide one property (or all) on /repo's current source."""
import importlib.util
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import core  # noqa: E402
import facts  # noqa: E402
import fx  # noqa: E402


def load(pid):
    s = importlib.util.spec_from_file_location(pid, os.path.join(V, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid == "all" or "," in pid:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py"))
        if pid != "all":
            ids = pid.split(",")
        prog = info = None
        try:
            f, info = facts.build()
            prog = fx.Prog(f)
        except facts.NoFacts as x:
            print("NOT-COMPILING", x)
            return 0
        rc = 0
        for i in ids:
            r, _ = core.run_check(i, load(i), tier, seed, prog, info, write=pid == "all" and not os.environ.get("VERIF_NOEV"))
            rc |= r
        return rc
    r, _ = core.run_check(pid, load(pid), tier, seed)
    return r


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
