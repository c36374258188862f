#!/usr/bin/env python3
"""Development tool (no check uses it): writes planted bugs to /verif/seeded and tries them.

  seeds.py make            writes seeded/<id>/ from the table in seeds_table.py
  seeds.py try [id...]     in a scratch copy of /repo: applies, builds, runs the repository's tests, the
                           demonstration with and without the patch, and the property's check
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORKERS = 4
REPO = os.environ.get("KUBA_REPO", "/repo")
SEEDED = os.path.join(ROOT, "seeded")

DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch directory, and runs it.
exec python3 "$(dirname "$0")/demo.py"
'''
DEMO_PY = '''import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "src"))
    shutil.copy(os.path.join(here, "demo.rs"), os.path.join(d, "src", "main.rs"))
    open(os.path.join(d, "Cargo.toml"), "w").write(\'\'\'[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
kuba = { path = "%s" }
nalgebra = "0.22"
ndarray = "0.13.1"
approx = "0.3.2"
[profile.dev]
debug = false
incremental = false
[workspace]
\'\'\' % repo)
    if os.path.exists(os.path.join(repo, "Cargo.lock")):
        shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    scratch = os.path.join(d, "scratch")
    os.mkdir(scratch)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-Awarnings", TMPDIR=scratch)
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if b.returncode != 0:
        sys.exit("demo did not build")
    try:
        r = subprocess.run([os.path.join(d, "target", "debug", "demo")], cwd=scratch, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        sys.exit("demo did not end")
    sys.exit(1 if r.returncode else 0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make():
    import seeds_table
    for sid, s in seeds_table.SEEDS.items():
        d = os.path.join(SEEDED, sid)
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            sh(["git", "clone", "-q", REPO, t + "/r"])
            for f, old, new in s["edits"]:
                p = os.path.join(t, "r", f)
                x = open(p).read()
                n = s.get("count", 1)
                assert x.count(old) == n, (sid, f, x.count(old), old)
                open(p, "w").write(x.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s.get("demo_py", DEMO_PY))
        if "demo" in s:
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"])


def attempt(sid, with_demo=True, worker=0):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = {}
    t = "/tmp/seed-try-%d" % worker
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(REPO, t, symlinks=True)
    try:
        if with_demo:
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
            out["demo_clean"] = r.returncode == 0
            if r.returncode:
                print(r.stdout.decode()[-1500:])
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=t)
        out["applies"] = a.returncode == 0
        if with_demo:
            env = dict(os.environ, CARGO_NET_OFFLINE="true")
            r = sh(["cargo", "test", "--offline"], cwd=t, env=env)
            x = r.stdout.decode()
            m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", x)
            out["tests"] = bool(m) and all(y[0] == "ok" for y in m)
            if not out["tests"]:
                print(x[-1500:])
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
            out["demo_bug"] = r.returncode != 0
            if b"did not build" in r.stdout:
                print(r.stdout.decode()[-1500:])
        r = sh([sys.executable, os.path.join(ROOT, "check.py"), meta["property"]],
               env=dict(os.environ, KUBA_REPO=t, KUBA_ALT=str(worker)))
        out["check"] = "caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR"
        if r.returncode != 1:
            print(r.stdout.decode()[-600:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
    print(sid, meta["property"], out, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make()
    else:
        ids = [a for a in sys.argv[2:] if a != "--nodemo"] or sorted(os.listdir(SEEDED))
        import queue, threading
        q = queue.Queue()
        for i in ids:
            q.put(i)

        def work(w):
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    attempt(i, "--nodemo" not in sys.argv, w)
                except Exception as e:
                    print(i, "failed:", e, flush=True)
        ts = [threading.Thread(target=work, args=(w,)) for w in range(min(WORKERS, len(ids)))]
        [x.start() for x in ts]
        [x.join() for x in ts]
