#!/usr/bin/env python3
"""Development tool: corrupts one field of recorded events at a time and lists the fields whose corruption the
specification accepts.   vacuity.py C05 [pieces per suite] [mutants per field]"""
import copy, json, os, random, re, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("VROOT", os.path.dirname(HERE))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from concurrent.futures import ThreadPoolExecutor
import check, suites


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in ("op", "_"):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path, "list", x
        for i, v in enumerate(x[:40]):
            yield from leaves(v, path + (i,))
    else:
        yield path, "leaf", x


def put(x, path, v):
    y = copy.deepcopy(x)
    z = y
    for p in path[:-1]:
        z = z[p]
    z[path[-1]] = v
    return y


def name(path):
    return ".".join("#" if isinstance(p, int) else p for p in path)


def variants(kind, v, rng):
    if kind == "list":
        if not v:
            return
        yield "drop", v[:-1]
        yield "dup", v + v[-1:]
        if len(v) > 1 and v[0] != v[1]:
            yield "swap", [v[1], v[0]] + v[2:]
        return
    if isinstance(v, int):
        for d in (1, -1, 20, -4000):
            yield "%+d" % d, v + d
    elif isinstance(v, str):
        yield "str", v + "x"


def main():
    pid = sys.argv[1]
    per, each = int((sys.argv + [0, 0])[2] or 12), int((sys.argv + [0, 0, 0])[3] or 4)
    rng = random.Random(5)
    stats = check.Stats()
    work = tempfile.mkdtemp(prefix="vac-")
    c = suites.Ctx(check, work, "quick", 7, stats)
    acc, tot = {}, {}
    for s in suites.PROPS[pid][1](c):
        pieces = [p for p in s["pieces"] if len(p) < 60]
        pieces = [p[:14] for p in rng.sample(pieces, min(per, len(pieces)))]
        binary = c.binary(s.get("driver", "conf"))
        bucket = {}
        good = None
        for p in pieces:
            evs = [json.loads(e) for e in check.execute(binary, p, work)]
            good = good or evs[0]
            for k, e in enumerate(evs):
                if len(json.dumps(e)) > 20000:
                    continue
                for path, kind, v in leaves(e):
                    for tag, nv in variants(kind, v, rng):
                        bucket.setdefault((e["op"], name(path), tag), []).append((evs, k, path, nv))
        single = s["module"] not in ("TraceMap", "TraceViz")
        asks = []
        for key, ms in sorted(bucket.items()):
            for evs, k, path, nv in rng.sample(ms, min(each, len(ms))):
                asks.append((key, ([] if single else evs[:k]) + [put(evs[k], path, nv), good]))
        groups = {}
        for a in asks:
            groups.setdefault(a[0][:2], []).append(a)

        def judge(part):
            trace, starts, last = [], [], []
            for _, p in part:
                starts.append(len(trace) + 1)
                trace += [json.dumps(x) for x in p]
                last.append(len(trace))
            with tempfile.TemporaryDirectory(dir=work) as d:
                t, st = os.path.join(d, "t.nd"), os.path.join(d, "s.json")
                open(t, "w").write("\n".join(trace) + "\n")
                open(st, "w").write(json.dumps(starts))
                rc, out = check.tlc(work, "V" + s["module"], s["cfg"] + "INVARIANT Note\nCHECK_DEADLOCK FALSE\n",
                                    stats, env={"TRACE": t, "STARTS": st}, workers=1, heap="1g")
            at = set(int(x) for x in re.findall(r'<<"AT", (\d+)>>', out))
            if "Model checking completed" in out:
                return [(a[0], l in at) for a, l in zip(part, last)]
            if len(part) == 1:
                return [(part[0][0], last[0] in at)]
            h = len(part) // 2
            return judge(part[:h]) + judge(part[h:])
        d = os.path.join(work, "spec")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "V" + s["module"] + ".tla"), "w").write(
            "---- MODULE V%s ----\nEXTENDS %s\nNote == PrintT(<<\"AT\", l>>)\n====\n" % (s["module"], s["module"]))
        for f in os.listdir(check.SPEC):
            if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)):
                os.symlink(os.path.join(check.SPEC, f), os.path.join(d, f))
        old, check.SPEC = check.SPEC, d
        try:
            with ThreadPoolExecutor(7) as ex:
                for r in ex.map(judge, list(groups.values())):
                    for key, ok in r:
                        k = (s["label"],) + key
                        tot[k] = tot.get(k, 0) + 1
                        acc[k] = acc.get(k, 0) + ok
        finally:
            check.SPEC = old
    print(pid, "corruptions accepted (accepted/tried):")
    by = {}
    for (lab, op, f, tag), n in sorted(tot.items()):
        by.setdefault((lab, op, f), []).append((tag, acc[(lab, op, f, tag)], n))
    for k, v in by.items():
        if all(a == n for _, a, n in v):
            print("  UNCONSTRAINED", *k)
        elif any(a for _, a, n in v):
            print("  partly", *k, " ".join("%s:%d/%d" % x for x in v if x[1]))


main()
