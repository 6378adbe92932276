"""Builds the library from ./src with stand-ins for the crates this machine lacks, in a scratch
folder, and runs demo.rs against it. Exit 0: the demonstration passes."""
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory(prefix="reveaal-demo-") as d:
    shutil.copytree(os.path.join(here, "shim"), d + "/shim")
    s = open(d + "/shim/Cargo.toml.in").read().replace("@SHIM@", d + "/shim")
    open(d + "/Cargo.toml", "w").write(s)
    shutil.copy(d + "/shim/Cargo.lock", d + "/Cargo.lock")
    os.symlink(repo + "/src", d + "/src")
    os.symlink(repo + "/samples", d + "/samples")
    os.makedirs(d + "/tests")
    with open(d + "/tests/demo.rs", "w") as f:
        f.write(open(here + "/prelude.rs").read() + "\n" + open(here + "/demo.rs").read())
    os.makedirs(d + "/tmp")
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", TMPDIR=d + "/tmp", RUSTFLAGS="-Awarnings",
               CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_TEST_DEBUG="0")
    if os.environ.get("DEMO_TARGET"):
        env["CARGO_TARGET_DIR"] = os.environ["DEMO_TARGET"]
    r = subprocess.run(["cargo", "+nightly", "test", "--offline", "--test", "demo"] + (["--", "--nocapture"] if os.environ.get("NOCAP") else []), cwd=d, env=env)
    sys.exit(0 if r.returncode == 0 else 1)
