#!/usr/bin/env python3
"""stable.py CORPUS [-k SUB]: which changes of a corpus the repository's stable tests notice (run in /repo, undone)."""
import sys, json, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
sub = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
base = json.load(open("/opt/vp/BASELINE.json"))
for m in mut.parse(sys.argv[1]):
    if sub not in m["name"] or m["exp"] == "-":
        continue
    try:
        for f, o, n in m["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(o) == 1, m["name"]
            open(p, "w").write(s.replace(o, n))
        r = subprocess.run("bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; grep -h 'FAILED$' /opt/vp/slice/test.log | head -3", shell=True, capture_output=True, text=True)
        print(m["name"], r.stdout.strip() or "quiet", flush=True)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
