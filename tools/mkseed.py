#!/usr/bin/env python3
"""mkseed.py FILE.seed...: makes seeded/<id> from a description (header, edits as in the mutation
corpus, demo), confirming: applies, everything parses, the stable tests pass, the demonstration
passes without and fails with it. Reports which checks catch it."""
import os, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import mut

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def parse(p):
    s = open(p).read()
    head, rest = s.split("\n== ", 1)
    h = {}
    for l in head.split("\n"):
        if ": " in l:
            k, v = l.split(": ", 1); h[k] = v
    edits, demo = rest.split("\n== demo\n", 1)
    tmp = "/tmp/mkseed.txt"
    open(tmp, "w").write("== " + edits)
    return h, mut.parse(tmp)[0]["edits"], demo

def make(p, clean_ok):
    sid = os.path.basename(p)[:-5]
    h, edits, demo = parse(p)
    W = "/tmp/mkseed"
    shutil.rmtree(W, ignore_errors=True)
    sh("git clone -q /repo %s/repo" % W)
    R = W + "/repo"
    for f, old, new in edits:
        q = os.path.join(R, f); t = open(q).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(q, "w").write(t.replace(old, new))
    d = V + "/seeded/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh("git diff", cwd=R).stdout
    open(d + "/patch.diff", "w").write(diff)
    bad = 0
    for f in [x for x in sh("git diff --name-only", cwd=R).stdout.split() if x.endswith(".rs")]:
        r = sh("rustfmt --edition 2018 --emit stdout < %s/%s" % (R, f))
        bad |= r.returncode
        assert "/tests/" not in f
    if any("transition_id.rs" in f for f, _, _ in edits):
        T = W + "/t"; os.makedirs(T)
    shutil.copytree(V + "/shim", d + "/shim")
    for a, b in (("demo.sh", "demo.sh"), ("demo.py", "demo.py"), ("demo_prelude.rs", "prelude.rs")):
        shutil.copy(V + "/tools/" + a, d + "/" + b)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ)
    env["DEMO_TARGET"] = "/tmp/mkseed-target"
    a = sh([d + "/demo.sh"], cwd="/repo", env=env)
    b = sh([d + "/demo.sh"], cwd=R, env=env)
    comp = "error: could not compile" in b.stderr or "error[" in b.stderr
    envc = dict(os.environ, VERIF_REPO=R, VERIF_WORK=W + "/work")
    os.makedirs(W + "/work")
    if os.path.exists(V + "/.work/driver"):
        shutil.copytree(V + "/.work/driver", W + "/work/driver", symlinks=True)
    c = sh([V + "/check.py", "all"], env=envc)
    caught = re.findall(r"VIOLATION property=(\w+)", c.stdout)
    ok = a.returncode == 0 and b.returncode != 0 and not comp and not bad
    print("%-28s %s clean=%d patched=%d%s parse=%d property=%s caught-by=%s" % (sid, "ok " if ok else "BAD", a.returncode,
          b.returncode, " DOES NOT COMPILE" if comp else "", bad, h["property"], ",".join(caught)))
    if not ok or "-v" in sys.argv:
        print((a.stderr[-900:] + a.stdout[-900:]) if a.returncode else b.stderr[-900:] + b.stdout[-900:])
    shutil.rmtree(W, ignore_errors=True)

for p in [x for x in sys.argv[1:] if not x.startswith("-")]:
    make(p, False)
