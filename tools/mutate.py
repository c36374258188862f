#!/usr/bin/env python3
"""Development tool (no check uses it): mutates the repository's sources one small edit at a time, keeps the
mutants that compile and pass the existing tests, and lists those that no check reports.

  mutate.py OUT.jsonl [-j WORKERS] [--files substring,...] [--sample N SEED]
"""
import json, os, queue, random, re, shutil, signal, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CHECKS = [("src/geom/bounds.rs", "C02 C03 C24 C05 C13"), ("src/geom/cell_bounds.rs", "C02 C03 C24 C05"),
          ("src/geom/converter.rs", "C01 C02"), ("src/geom/point_cloud.rs", "C17 C18 C13"),
          ("src/geom/vector.rs", "C24"), ("src/geom/point.rs", "C24"), ("src/geom/cell.rs", "C24 C04 C06"),
          ("src/math.rs", "C22 C24"), ("src/map/grid_map.rs", "C04 C05 C06 C14 C16 C13 C01"),
          ("src/map/lidar_noise_model.rs", "C11 C12 C13 C14 C22 C15"),
          ("src/map/occupancy_grid_map.rs", "C15 C11 C12"), ("src/ray_caster.rs", "C07 C08 C09 C10 C11"),
          ("src/kitti/fs.rs", "C20 C21"), ("src/kitti/oxt_reader.rs", "C21 C20"),
          ("src/kitti/point_cloud_reader.rs", "C19 C20"), ("viz/src/bin/draw_occupancy_grid.rs", "C23")]
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
       (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]),
       (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\.floor\(\)", [".ceil()", ".round()", ".trunc()"]),
       (r"\.ceil\(\)", [".floor()", ".round()", ".trunc()"]), (r"\.round\(\)", [".floor()", ".ceil()", ".trunc()"]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.min\b(?!\()", [".max"]), (r"\.max\b(?!\()", [".min"]),
       (r"\.abs\(\)", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bif !", ["if "]),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])0\.0\b", ["1.0", "0.001"]),
       (r"(?<![\w.])1\.0\b", ["0.0", "1.001"]), (r"(?<![\w.])2\.0\b", ["1.0"]), (r"\[i\]", ["[0]", "[1]"]),
       (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.z\b", [".y"]), (r"(?<![\w.])(\d+\.\d+)\b(?!\w)", ["(1.01 * @)"]),
       (r"(?<![\w.])(\d\d+)\b(?![\w.])", ["(@ + 1)"]), (r"\.signum\(\)", [""]), (r"\.sqrt\(\)", [""]),
       (r"\.to_radians\(\)", [""]), (r"\.cos\(\)", [".sin()"]), (r"\.unwrap_or\([^)]*\)", [".unwrap()"]),
       (r"return ", ["let _unused = "]), (r"\? *;", [".ok();"]),
       (r"\borigin\b", ["end", "point"]), (r"\bself\b\.", ["other."]), (r"\bother\b\.", ["self."]),
       (r"INFINITY", ["MAX", "MIN_POSITIVE"]), (r"\.clone\(\)", [""]), (r"\bpush\b", ["insert"])]


def mutants(path, text):
    # without the tests and the two functions of grid_map that nothing calls
    body = text.split("#[cfg(test)]")[0].split("// This is unused due to")[0]
    lines = body.split("\n")
    pos = 0
    for n, line in enumerate(lines):
        s = line.strip()
        if s and not s.startswith(("//", "use ", "#", "extern ", "pub mod", "mod ", "where", "impl", "pub type", "fn ", "pub fn")):
            code = line.split(" // ")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        yield n + 1, pos + m.start(), pos + m.end(), r.replace("@", m.group(0))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".")) and s.count("(") == s.count(")"):
                yield n + 1, pos, pos + len(line), "// deleted"
            if re.match(r"^\s*(if|while) .*\{$", line):
                m = re.match(r"^(\s*(?:if|while) )(?!let )(.*)( \{)$", line)
                if m:
                    for v in (("true", "false") if "if" in m.group(1) else ("false",)):
                        yield n + 1, pos + m.start(2), pos + m.end(2), v
        pos += len(line) + 1


def run(cmd, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out = p.communicate(timeout=300)[0]
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 99, "timeout"


def main():
    out = sys.argv[1]
    arg = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    workers = int(arg("-j", "3"))
    only = arg("--files", "").split(",")
    todo = []
    for f, checks in CHECKS:
        if not any(o in f for o in only):
            continue
        text = open(os.path.join("/repo", f)).read()
        for m in mutants(f, text):
            todo.append((f, checks.split(), text) + m)
    if "--sample" in sys.argv:
        i = sys.argv.index("--sample")
        todo = random.Random(int(sys.argv[i + 2])).sample(todo, min(len(todo), int(sys.argv[i + 1])))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["at"], d["new"]))
    todo = [t for t in todo if (t[0], t[4], t[6]) not in done]
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")

    def work(w):
        tree = "/tmp/mutate-%d" % w
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree("/repo", tree, symlinks=True)
        while True:
            try:
                f, checks, text, line, a, b, new = q.get_nowait()
            except queue.Empty:
                shutil.rmtree(tree, ignore_errors=True)
                return
            p = os.path.join(tree, f)
            open(p, "w").write(text[:a] + new + text[b:])
            res, detail = None, ""
            rc, o = run(["cargo", "test", "--offline", "--workspace", "--no-run", "-q"], cwd=tree, env=env)
            if rc:
                res = "nobuild"
            else:
                rc, o = run(["cargo", "test", "--offline", "--workspace", "-q"], cwd=tree, env=env)
                if rc:
                    res = "tests"
            if res is None:
                res = "SURVIVED"
                for c in checks:
                    rc, o = run([sys.executable, os.path.join(ROOT, "check.py"), c],
                                env=dict(os.environ, KUBA_REPO=tree, KUBA_ALT="m%d" % w))
                    if rc == 1:
                        res = c
                        break
                    if rc:
                        detail += " %s rc=%d %s" % (c, rc, o[-300:])
            open(p, "w").write(text)
            with lock:
                old = text[a:b]
                with open(out, "a") as fo:
                    fo.write(json.dumps(dict(file=f, line=line, at=a, old=old, new=new, res=res, detail=detail,
                                             src=text.split("\n")[line - 1].strip())) + "\n")
                if res == "SURVIVED" or detail:
                    print(f, line, repr(old), "->", repr(new), "|", text.split("\n")[line - 1].strip()[:90], res, detail, flush=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
