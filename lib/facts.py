"""Builds the compiler driver and the facts of /repo's current tree (cached by content)."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))


class NoFacts(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            h.update(b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"?")
    return h.hexdigest()[:24]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env(**kw):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTC_WORKSPACE_WRAPPER", None)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    e.update(kw)
    return e


def driver():
    """Path of the built driver."""
    src = os.path.join(VERIF, "driver")
    h = tree_hash([os.path.join(src, "src"), os.path.join(src, "Cargo.toml")])
    td = os.path.join(WORK, "driver")
    exe = os.path.join(td, "release", "mirfacts")
    stamp = os.path.join(td, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(td, exist_ok=True)
    r = run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=src, env=env(CARGO_TARGET_DIR=td))
    if r.returncode != 0:
        sys.stdout.write(r.stdout)
        raise NoFacts("the fact extractor did not build")
    open(stamp, "w").write(h)
    return exe


def crate_dir():
    d = os.path.join(WORK, "crate-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(d, exist_ok=True)
    shim = os.path.join(VERIF, "shim")
    t = open(os.path.join(shim, "Cargo.toml.in")).read().replace("@SHIM@", shim)
    f = os.path.join(d, "Cargo.toml")
    if not os.path.exists(f) or open(f).read() != t:
        open(f, "w").write(t)
    lk = open(os.path.join(shim, "Cargo.lock")).read()
    f = os.path.join(d, "Cargo.lock")
    if not os.path.exists(f) or open(f).read() != lk:
        open(f, "w").write(lk)
    for n in ("src", "samples"):
        p = os.path.join(d, n)
        if os.path.islink(p) and os.readlink(p) != os.path.join(REPO, n):
            os.unlink(p)
        if not os.path.islink(p):
            os.symlink(os.path.join(REPO, n), p)
    return d


def build():
    """(facts, info). Raises NoFacts when the tree cannot be analysed."""
    os.makedirs(WORK, exist_ok=True)
    h = tree_hash([os.path.join(REPO, "src"), os.path.join(VERIF, "driver", "src"),
                   os.path.join(VERIF, "shim")])
    out = os.path.join(WORK, "facts-%s.json" % h)
    t0 = time.time()
    cached = True
    with open(os.path.join(WORK, "lock-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cached = False
            exe = driver()
            d = crate_dir()
            td = os.path.join(d, "target")
            fp = os.path.join(td, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("reveaal-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            sysroot = run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
            tmp = out + ".tmp"
            if os.path.exists(tmp):
                os.unlink(tmp)
            r = run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=d,
                    env=env(CARGO_TARGET_DIR=td, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
                            RUSTC_WORKSPACE_WRAPPER=exe, MIRFACTS_OUT=tmp))
            with open(os.path.join(WORK, "build-%s.log" % os.path.basename(d)), "w") as f:
                f.write(r.stdout)
            if not os.path.exists(tmp):
                raise NoFacts("the source could not be analysed by the compiler:\n" + r.stdout[-3000:])
            os.rename(tmp, out)
            # keep only a few
            olds = sorted((os.path.getmtime(os.path.join(WORK, n)), n) for n in os.listdir(WORK)
                          if n.startswith("facts-") and n.endswith(".json"))
            for _, n in olds[:-40]:
                os.unlink(os.path.join(WORK, n))
    with open(out) as f:
        facts = json.load(f)
    return facts, {"hash": h, "cached": cached, "seconds": round(time.time() - t0, 1)}
