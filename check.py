#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [--replay FILE]

Model checks the specification behind the property with TLC, executes generated scripts (random ones,
enumerated ones and behaviours of the specification itself) against the real code through the
conformance driver, and lets TLC decide whether every recorded execution is a behaviour of the
specification. Exit 0: held; 1: VIOLATION; 2: the check itself could not be carried out.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("KUBA_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
sys.path.insert(0, os.path.join(HERE, "tools"))


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def env_with_toolchain():
    if not hasattr(env_with_toolchain, "env"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; env -0"],
                             stdout=subprocess.PIPE).stdout.decode(errors="replace")
        env_with_toolchain.env = dict(kv.split("=", 1) for kv in out.split("\0") if "=" in kv)
    return dict(env_with_toolchain.env)


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def cargo(crate, args, target, stamp_roots, profile="debug"):
    """cargo build --offline; forgets kuba's fingerprints when the sources' content changed, so that
    file times cannot hide a change."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "." + os.path.basename(crate) + "." + profile + ".stamp")
    now = tree_hash(stamp_roots)
    if not os.path.exists(stamp) or open(stamp).read() != now:
        fp = os.path.join(target, profile, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("kuba"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = env_with_toolchain()
    env["CARGO_TARGET_DIR"] = target
    r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=crate, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    with open(stamp, "w") as f:
        f.write(now)


VIZ_PREFIX = """#![no_std]
#![allow(unused_imports)]
#[macro_use]
extern crate shimstd as std;
use std::prelude::v1::*;
"""
VIZ_SUFFIX = """
pub fn visualiser() {
    let _ = main();
}
"""


def put_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(text)


def build_driver(work, name="conf"):
    """Builds a driver against REPO (/repo, unless planted changes are being tried elsewhere)."""
    target = TARGET if REPO == "/repo" else TARGET + "-alt" + os.environ.get("KUBA_ALT", "")
    src = os.path.join(HERE, "harness")
    gen = os.path.join(target, "harness")
    # The crates are laid out below the target directory: with paths to REPO, and the visualiser's own
    # source turned into a library whose threads and locks the schedule explorer controls.
    for d, _, fs in os.walk(src):
        for f in fs:
            if "/target/" in d or f == "Cargo.lock" and name not in d:
                continue
            p = os.path.join(d, f)
            t = open(p).read()
            if f == "Cargo.toml":
                t = t.replace('"/repo"', '"%s"' % REPO)
            put_if_changed(os.path.join(gen, os.path.relpath(p, src)), t)
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(gen, "conf", "src")]
    if name == "viz":
        bin_rs = os.path.join(REPO, "viz", "src", "bin", "draw_occupancy_grid.rs")
        if not os.path.exists(bin_rs):
            raise ToolError("no visualiser at " + bin_rs)
        text = open(bin_rs).read()
        # inner attributes and inner comments may only stand at the top of a crate
        text = re.sub(r"(?m)^(#!\[[^\]]*\]|//!.*)$", "", text)
        put_if_changed(os.path.join(gen, "viz", "app", "src", "lib.rs"), VIZ_PREFIX + text + VIZ_SUFFIX)
    crate = os.path.join(gen, name)
    if name == "conf":      # once with and once without debug assertions and overflow checks
        with ThreadPoolExecutor(2) as ex:
            both = [ex.submit(cargo, crate, [], target, roots),
                    ex.submit(cargo, crate, ["--profile", "plain"], target, roots, "plain")]
            for b in both:
                b.result()
    else:
        cargo(crate, [], target, roots)
    return os.path.join(target, "debug", "kuba-conf" if name == "conf" else "kuba-viz-conf")


# ------------------------------------------------------------------ TLC
class Stats:
    def __init__(self):
        self.states = self.trans = self.traces = self.events = 0
        self.models, self.samples = [], []
        self.lock = threading.Lock()


def tlc(work, module, cfg_text, stats, env=None, workers=4, extra=(), timeout=840, heap="3g"):
    with tempfile.TemporaryDirectory(dir=work) as d:
        cfg = os.path.join(d, module + ".cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, d)
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise ToolError("TLC timed out on " + module)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            with stats.lock:
                stats.trans += int(m[-1][0])
                stats.states += int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                with stats.lock:
                    stats.trans += int(m[-1])
                    stats.states += int(m[-1])
        return p.returncode, out


def run_model(work, m, stats):
    """m: dict(module, cfg, expect=None|name, sim=None), or one for run_apalache"""
    if "cinit" in m:
        return run_apalache(work, m, stats)
    extra = []
    if m.get("sim"):
        extra = ["-simulate", "num=%d" % m["sim"][0], "-depth", str(m["sim"][1]), "-seed", str(m["seed"])]
    rc, out = tlc(work, m["module"], m["cfg"], stats, extra=extra, workers=m.get("workers", 4),
                  env=m.get("env"))
    ok = "Model checking completed. No error has been found" in out or \
         (m.get("sim") and "Error:" not in out and rc == 0)
    name = m.get("name", m["module"])
    if m.get("expect"):
        if ("Invariant %s is violated" % m["expect"]) not in out and \
           ("%s is violated" % m["expect"]) not in out and m["expect"] not in out.split("Error:", 1)[-1][:300]:
            raise ToolError("model %s: the seeded defect was not found\n%s" % (name, out[-2500:]))
    elif not ok:
        raise ToolError("model %s: TLC did not accept the specification\n%s" % (name, out[-4000:]))
    n = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    with stats.lock:
        stats.models.append({"model": name, "states": int(n[-1][1]) if n else None,
                             "expected_violation": m.get("expect")})
    return out


def run_apalache(work, m, stats):
    """m: dict(module, cinit, inv): the invariant holds in every initial state (length 0), for all integers."""
    with tempfile.TemporaryDirectory(dir=work) as d:
        e = dict(os.environ, JVM_ARGS="-Xmx3g", HOME=d)
        p = subprocess.Popen(["apalache-mc", "check", "--out-dir=" + os.path.join(d, "out"), "--cinit=" + m["cinit"],
                              "--length=%d" % m.get("length", 0), "--inv=" + m["inv"],
                              os.path.join(SPEC, m["module"] + ".tla")],
                             cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out = p.communicate(timeout=600)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise ToolError("Apalache timed out on " + m["module"])
    found = "The outcome is: Error" in out
    if (found if m.get("expect") else "The outcome is: NoError" in out) is False:
        raise ToolError("Apalache on %s %s:\n%s" % (m["module"], m["cinit"], out[-3000:]))
    with stats.lock:
        stats.models.append({"model": m["name"], "states": None, "expected_violation": m.get("expect"),
                             "symbolic": "all integers"})
    return out


# ------------------------------------------------------------------ executing scripts
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(binary, lines, work, noise=2):
    """Events for the lines. If the process dies, the last event says so and the rest is missing."""
    with tempfile.TemporaryDirectory(dir=work) as d:
        env = dict(os.environ, TMPDIR=d, CONF_OP_SECS=os.environ.get("CONF_OP_SECS", "12"),
                   CONF_NOISE=str(noise))
        err = open(os.path.join(d, "err"), "w+b")
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env,
                             cwd=d, preexec_fn=limits, start_new_session=True)
        try:
            out = p.communicate(("\n".join(lines) + "\n").encode(), timeout=600)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out = p.communicate()[0]
        err.seek(max(0, err.seek(0, 2) - 4000))
        tail = err.read().decode(errors="replace")
        err.close()
        evs = [l for l in out.decode(errors="replace").split("\n") if l.startswith('{"op":')]
        if p.returncode == 0:
            if len(evs) != len(lines):
                raise ToolError("driver: %d events for %d lines" % (len(evs), len(lines)))
            return evs
        last = tail.strip().split("\n")[-1] if tail.strip() else ""
        if "panic: script:" in last:
            raise ToolError("driver: " + last)
        evs = evs[:len(lines) - 1]
        evs.append(json.dumps({"op": "died", "rc": p.returncode, "line": lines[len(evs)][:200]}))
        return evs


def unordered(x):
    """The event with its change lists sorted: their order is the code's choice."""
    if isinstance(x, dict):
        return {k: sorted(v) if k == "chg" else unordered(v) for k, v in x.items()}
    return [unordered(v) for v in x] if isinstance(x, list) else x


def same_events(a, b):
    return len(a) == len(b) and all(x == y or unordered(json.loads(x)) == unordered(json.loads(y))
                                    for x, y in zip(a, b))


def validate(work, module, cfg, binary, pieces, stats, workers=8, label=""):
    lines, starts = [], []
    for p in pieces:
        starts.append(len(lines) + 1)
        lines.extend(p)
    if not lines:
        return
    # Elsewhere in the process, threads use kuba on values of their own.
    noise = 0 if module == "TraceBig" or label in ("long rays", "large maps", "far growth") else 2
    # The driver also exists without debug assertions and overflow checks, as users build the code. What it does
    # is judged on its own wherever it differs.
    plain = os.path.join(os.path.dirname(os.path.dirname(binary)), "plain", os.path.basename(binary))
    with ThreadPoolExecutor(2) as ex:
        other = ex.submit(execute, plain, lines, work, noise) if os.path.exists(plain) else None
        evs = execute(binary, lines, work, noise)
        other = other.result() if other else evs
    judge(work, module, cfg, pieces, starts, evs, stats, workers, label)
    if not same_events(evs, other):
        judge(work, module, cfg, pieces, starts, other, stats, workers, label + " (without debug assertions)")


def judge(work, module, cfg, pieces, starts, evs, stats, workers, label):
    starts = [s for s in starts if s <= len(evs)]
    with tempfile.TemporaryDirectory(dir=work) as d:
        t, s = os.path.join(d, "t.nd"), os.path.join(d, "s.json")
        open(t, "w").write("\n".join(evs) + "\n")
        open(s, "w").write(json.dumps(starts))
        rc, out = tlc(work, module, cfg, stats, env={"TRACE": t, "STARTS": s}, workers=workers)
    if "Model checking completed. No error has been found" in out:
        with stats.lock:
            stats.traces += len(starts)
            stats.events += len(evs)
            if pieces:
                last = evs[min(len(pieces[0]), 6) - 1]
                stats.samples.append({"suite": label or module, "script": [x[:400] for x in pieces[0][:6]],
                                      "last_event": json.loads(last) if len(last) < 3000 else last[:3000] + " ..."})
        return
    ls = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
    if not ls or "Error:" not in out:
        raise ToolError("trace validation failed to run\n" + out[-4000:])
    at = int(ls[-1])
    if at < 1 or at > len(evs):
        raise ToolError("trace validation: bad line\n" + out[-3000:])
    k = max(i for i, s in enumerate(starts) if s <= at)
    piece = pieces[k][:at - starts[k] + 1]
    why = "not explained by the specification" if "Deadlock reached" in out else \
        " ".join(out.split("Error:", 1)[1].split())[:900]
    raise Violation(why, {"module": module, "cfg": cfg, "label": label, "script": piece, "event": json.loads(evs[at - 1]),
                          "event_no": at - starts[k] + 1, "why": why})


# ------------------------------------------------------------------ main
def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                out.append(l.strip()[len("known: "):])
    return out


def main():
    import suites
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    stats = Stats()
    work = tempfile.mkdtemp(prefix="kuba-check-")
    status, detail = 0, ""
    try:
        ctx = suites.Ctx(sys.modules[__name__], work, tier, seed, stats)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            suites.replay(ctx, pid, json.load(open(sys.argv[3])))
        else:
            suites.run(ctx, pid)
    except Violation as v:
        status = 1
        rd = os.path.join(HERE, "work", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (pid, tier, seed))
        rec = dict(v.replay, property=pid, seed=seed, tier=tier)
        json.dump(rec, open(path, "w"), indent=1)
        say("%s: %s" % (pid, v.what))
        for l in (v.replay.get("script") or [])[-4:]:
            say("   script:", l[:300])
        say("   event:", json.dumps(v.replay.get("event"))[:600])
        say("VIOLATION property=%s replay=%s" % (pid, path))
    except (ToolError, subprocess.TimeoutExpired) as e:
        status = 2
        say("ERROR of the check %s: %s" % (pid, e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k in known_findings(pid):
        say("KNOWN-FINDING: " + k)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking",
          "coverage": {"states": stats.states, "transitions": stats.trans,
                       "traces_validated_against_impl": stats.traces,
                       "events_validated": stats.events, "models": stats.models,
                       "samples": stats.samples[:8]},
          "assumptions": suites.ASSUMPTIONS.get(pid, suites.ASSUMPTIONS["*"]),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if status == 1 else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if status == 0:
        say("%s held: %d model/trace states, %d traces (%d events), %.1fs" %
            (pid, stats.states, stats.traces, stats.events, time.time() - t0))
    sys.exit(status)


if __name__ == "__main__":
    main()
