#!/usr/bin/env python3
"""mut.py CORPUS... [-k SUBSTRING] [-c CHECKS]  -- applies each textual change of a corpus to a
scratch copy of /repo/src and runs the checks on it. A corpus entry is a block

    == name | expected checks (comma separated, '-' for none: a change that keeps the behaviour)
    -- file
    <<<<
    old text
    ====
    new text
    >>>>

(several -- file blocks per entry). Old texts must occur exactly once."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    out = []
    cur = None
    lines = open(path).read().split("\n")
    i = 0
    f = None
    while i < len(lines):
        l = lines[i]
        if l.startswith("== "):
            n, _, ex = l[3:].partition("|")
            cur = {"name": n.strip(), "exp": ex.strip(), "edits": []}
            out.append(cur)
        elif l.startswith("-- "):
            f = l[3:].strip()
        elif l == "<<<<":
            j = lines.index("====", i)
            k = lines.index(">>>>", j)
            cur["edits"].append((f, "\n".join(lines[i + 1:j]), "\n".join(lines[j + 1:k])))
            i = k
        i += 1
    return out


def one(args):
    m, slot_q, checks = args
    slot = slot_q.pop()
    try:
        base = "/tmp/%s/%d" % (os.environ.get("MUTSLOT", "mutslot"), slot)
        repo = base + "/repo"
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(repo)
        shutil.copytree(os.environ.get("MUTREPO", "/repo") + "/src", repo + "/src")
        os.symlink("/repo/samples", repo + "/samples")
        for f, old, new in m["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return m, None, "old text occurs %d times in %s: %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        e = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=base + "/work")
        os.makedirs(base + "/work", exist_ok=True)
        drv = base + "/work/driver"
        if not os.path.exists(drv) and os.path.exists(V + "/.work/driver"):
            shutil.copytree(V + "/.work/driver", drv)
        r = subprocess.run([V + "/check.py", checks], env=dict(e, VERIF_NOEV="1"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        hit = re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)
        return m, hit, r.stdout
    finally:
        slot_q.append(slot)


def main():
    a = sys.argv[1:]
    checks = "all"
    sub = None
    verbose = False
    files = []
    while a:
        x = a.pop(0)
        if x == "-k":
            sub = a.pop(0)
        elif x == "-c":
            checks = a.pop(0)
        elif x == "-v":
            verbose = True
        else:
            files.append(x)
    ms = [m for f in files for m in parse(f)]
    if sub:
        ms = [m for m in ms if sub in m["name"]]
    slots = list(range(6))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for m, hit, out in ex.map(one, [(m, slots, checks) for m in ms]):
            exp = [] if m["exp"] in ("-", "") else [x.strip() for x in m["exp"].split(",")]
            if hit is None:
                st = "ERROR " + out
                bad += 1
            else:
                miss = [x for x in exp if x not in hit and (checks == "all" or x in checks)]
                und = re.findall(r"^(UNDECIDED.*|NOT-COMPILING.*)", out, re.M)
                if und:
                    st = "UNDECIDED " + und[0][:200]
                elif miss or (not exp and hit):
                    st = "MISS" if miss else "FALSE-ALARM"
                    bad += 1
                else:
                    st = "ok"
                st += " hit=%s" % ",".join(hit)
                keys = re.findall(r"^  violated (\S+): ", out, re.M)
                st += " [" + " ".join(keys[:8]) + "]"
            print("%-44s %s" % (m["name"], st))
            if verbose and hit is not None:
                print(out)
            sys.stdout.flush()
    print("bad", bad, "of", len(ms))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
