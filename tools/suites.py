"""Which models and which recorded executions decide which property."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import gen

COMMON = ["kuba is used with finite coordinates; inputs lie on a lattice whose spacing dwarfs f32 rounding",
          "points exactly on a cell border may be assigned to either adjacent cell"]
ASSUMPTIONS = {"*": COMMON}


class Ctx:
    def __init__(self, check, work, tier, seed, stats):
        self.check, self.work, self.tier, self.seed, self.stats = check, work, tier, seed, stats
        self.thorough = tier == "thorough"
        self._bin = {}

    def rng(self, tag):
        return random.Random("%d/%s/%s" % (self.seed, self.tier, tag))

    def binary(self, driver="conf"):
        if driver not in self._bin:
            self._bin[driver] = self.check.build_driver(self.work, driver)
        return self._bin[driver]

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else quick


# ------------------------------------------------------------------ trace configurations
def aspects(*ids):
    return "{%s}" % ", ".join('"%s"' % i for i in ids)


def tcfg(*ids):
    return "SPECIFICATION TSpec\nCONSTANTS FREEZE = TRUE  ASPECTS = %s\n" % aspects(*ids)


# ------------------------------------------------------------------ models
def unbounded(c, quick):
    """The laws of one axis for all integers, symbolically."""
    return [dict(module="UnboundedInt", cinit=i, inv="Laws", name="one axis, all integers, " + i)
            for i in (["CInit24", "CInit21", "CInit85", "CInit100"] if c.thorough else quick)]


def geom_model(c):
    inv = "INVARIANTS EncInv OvlInv DiscInv TileInv NearInv CloudInv\nCHECK_DEADLOCK FALSE\n"
    out = [dict(module="MCGeom", name="lattice operators",
                cfg="SPECIFICATION Spec\nCONSTANTS FREEZE = TRUE ASPECTS = {} SPAN = %d SUB = 2 TILE = 3\n" %
                (3 if c.thorough else 2) + inv)]
    if c.thorough:
        out.append(dict(module="MCGeom", name="lattice operators, S = 4, tile 2",
                        cfg="SPECIFICATION Spec\nCONSTANTS FREEZE = TRUE ASPECTS = {} SPAN = 3 SUB = 4 TILE = 2\n"
                        + inv))
    return out


RAYINV = ("INVARIANTS ShapeInv InsideInv SoundInv CompleteInv RangeInv MonotoneInv AcceptInv ViewInv%s\n"
          "PROPERTY Terminates\n")


def ray_cfg(D, S, span, limits, freeze="TRUE", emit="FALSE", inv=None):
    return ("SPECIFICATION Spec\nCONSTANTS FREEZE = %s DIM = %d SUB = %d SPAN = %d LIMITS = {%s} EMIT = %s\n"
            % (freeze, D, S, span, ", ".join(map(str, limits)), emit)) + \
        (inv if inv is not None else RAYINV % "")


def ray_models(c):
    ms = [dict(module="MCRay", name="ray walk 2D", cfg=ray_cfg(2, 2, 4, [0, 5, 9])),
          dict(module="MCRay", name="ray walk 3D", cfg=ray_cfg(3, 2, 2, [0, 3])),
          dict(module="MCRay", name="ray walk without freezing (must fail)", expect="InsideInv",
               cfg=ray_cfg(2, 2, 3, [0], freeze="FALSE", inv="INVARIANTS InsideInv\n"))]
    if c.thorough:
        ms += [dict(module="MCRay", name="ray walk 2D, 4 cells", cfg=ray_cfg(2, 2, 8, [0, 5, 9, 14])),
               dict(module="MCRay", name="ray walk 2D, S = 4", cfg=ray_cfg(2, 4, 9, [0, 7])),
               dict(module="MCRay", name="ray walk 3D, 2 cells", cfg=ray_cfg(3, 2, 3, [0, 5]))]
    return ms


def emitted_rays(c):
    """All rays of the exhaustively checked lattices, as a script."""
    out = []
    for D, S, span, lim in [(2, 2, 4, [0, 5, 9]), (3, 2, 2, [0, 3])]:
        txt = c.check.run_model(c.work, dict(module="MCRay", name="ray enumeration %dD" % D,
                                             cfg=ray_cfg(D, S, span, lim, emit="TRUE",
                                                         inv="INVARIANTS Emit\n")), c.stats)
        seen = set()
        for m in re.finditer(r'<<"RAY", <<([-\d, ]+)>>, <<([-\d, ]+)>>, (-?\d+)>>', txt):
            o, e, ml = m.group(1).replace(",", ""), m.group(2).replace(",", ""), m.group(3)
            seen.add((o, e, ml))
        assert len(seen) == (span + 1) ** (2 * D) * len(lim), len(seen)
        for i, (o, e, ml) in enumerate(sorted(seen)):
            res = ["0.5", "1", "0.1", "2"][i % 4]
            m = " ".join(["0"] * D) if i % 3 else " ".join([str(S)] * D)
            et = 1 + int(ml) ** 2 // 100000 if res == "0.1" and int(ml) > 0 else 0
            out.append("ray %d %d %s %s %s %s %s 0 %d" % (D, S, res, m, o, e, ml, et))
    if not c.thorough:
        r = c.rng("emit")
        r.shuffle(out)
        out = out[:2400]
    return out


def map_cfg(D, ops, depth, emit="FALSE", inv="GhostInv MarksInv", sub=4, ids="{0, 1}", view=True):
    return ("SPECIFICATION Spec\nCONSTANTS FREEZE = TRUE DIM = %d SUB = %d TILE = 2 IDS = %s DEPTH = %d EMIT = %s\n"
            "  OPS = %s\n  ASPECTS = {\"C04\", \"C05\", \"C06\", \"C11\", \"C12\", \"C13\", \"C14\", \"C16\"}\n"
            "CONSTRAINT Bound\n%sINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
            % (D, sub, ids, depth, emit, aspects(*ops), "VIEW NoHist\n" if view else "", inv))


def map_models(ops, depth, deep, D=2, inv="GhostInv MarksInv"):
    def f(c):
        return [dict(module="MCMap", name="maps: " + " ".join(ops) + ", depth %d" % (deep if c.thorough else depth),
                     cfg=map_cfg(D, ops, deep if c.thorough else depth, inv=inv), workers=6)]
    return f


def script_line(t):
    op = t["op"]
    f = {"new": ["m", "lo", "hi", "v"], "newd": ["m"], "set": ["m", "c", "v"], "exp": ["m", "x", "y", "v"],
         "trk": ["m", "b"], "clr": ["m"], "hit": ["m", "c"], "mis": ["m", "c"], "clone": ["m", "j"]}
    if op == "add":
        return gen.j("add", t["m"], len(t["cs"]), *t["cs"])
    if op == "int":
        return gen.j("int", t["m"], t["o"], len(t["p"]), *t["p"])
    return gen.j(op, *[t[k] for k in f[op]])


def emitted_maps(c, ops, depth, num, D=2, sub=4):
    """Behaviours of the map specification, as histories for the real code."""
    out = []
    txt = c.check.run_model(
        c.work, dict(module="MCMap", name="map behaviours for replay", sim=(num, depth + 2), seed=c.seed,
                     cfg=map_cfg(D, ops, depth, emit="TRUE", inv="GhostInv MarksInv Emit", sub=sub, view=False),
                     workers=4), c.stats)
    seen = set()
    for m in re.finditer(r'^"?SCRIPT (.*?)"?$', txt, re.M):
        s = m.group(1).replace('\\"', '"')
        if s in seen:
            continue
        seen.add(s)
        kind = "fo"[len(seen) % 2]
        h = "hist %d %d %s %s 2 1 0 1 3 -2 -5 7 0 %d" % (D, sub, ["0.5", "2", "0.1"][len(seen) % 3], kind,
                                                         2 * sub * 3)
        out.append([h] + [script_line(t) for t in json.loads(s)])
    if not out:
        raise c.check.ToolError("no behaviours were generated")
    return out


# ------------------------------------------------------------------ the suites
def T(module, cfg, pieces, label):
    return dict(module=module, cfg=cfg, pieces=pieces, label=label)


def maps(c, pid, pieces, label):
    return T("TraceMap", tcfg(pid), pieces, label)


def big(c, pid, count, kinds="fibo", ops="exp"):
    """Maps of millions of cells."""
    r = c.rng(pid + "big")
    sizes = [(2, 9100000 if "exp" in ops else 2300000), (3, 700000), (2, 600000), (3, 1200000), (2, 1100000), (2, 2300000), (3, 500000),
             (2, 4300000)]
    return T("TraceBig", tcfg(pid), gen.huge(r, sizes[:count] * (4 if c.thorough else 1), kinds, ops), "huge maps")


def umaps(c, pid, kinds="fibo"):
    return T("TraceGeom", tcfg(pid), gen.pieces(gen.umaps(c.rng(pid + "u"), c.n(80), kinds), 20), "unaligned maps")


def C01(c):
    r = c.rng("C01")
    lines = gen.conv_grid(2) + gen.conv_grid(3) + gen.conv(r, c.n(2500))
    h = gen.hists(r, c.n(60), 14, dict(cfp=5, pfc=5, exp=1, new=1, int=0.5))
    return [umaps(c, "C01"),
            T("TraceGeom", tcfg("C01"), gen.pieces(lines, 200), "conversions"),
            maps(c, "C01", h, "conversions through maps")]


def C02(c):
    r = c.rng("C02")
    return [T("TraceGeom", tcfg("C02"), gen.pieces(gen.box_grid() + gen.boxes(r, c.n(3000)), 200), "boxes")]


def C03(c):
    r = c.rng("C03")
    return [T("TraceGeom", tcfg("C03"),
              gen.pieces(gen.box2_grid() + gen.box2(r, c.n(2500)) + gen.boxes(r, c.n(800)), 200), "box pairs")]


def C04(c):
    r = c.rng("C04")
    w = dict(set=8, get=3, exp=1, clone=0.3, new=0.5, int=0.4, hit=0.3, trk=0.6, add=0.6)
    return [umaps(c, "C04"), big(c, "C04", 3),
            T("TraceGeom", tcfg("C04"), [["aliases"]], "map types"),
            maps(c, "C04", gen.long_lives(r, c.n(4), ["set", "all"], "fibo"), "long lives"),
            maps(c, "C04", gen.far_growth(r, c.n(12), False), "far growth"),
            maps(c, "C04", gen.larges(r, c.n(4)), "large maps"),
            maps(c, "C04", gen.default_occ(r, 3, "ofib"), "maps by default"),
            maps(c, "C04", gen.hists(r, c.n(140), 16, w, blank=0.12), "random histories"),
            maps(c, "C04", emitted_maps(c, ["new", "set", "exp", "clone"], 5, c.n(150)), "model behaviours")]


def C05(c):
    r = c.rng("C05")
    w = dict(exp=5, set=3, int=0.4, new=0.4)
    return [big(c, "C05", 4),
            maps(c, "C05", gen.long_lives(r, c.n(4), ["exp", "exp"], "fibo"), "long lives"),
            maps(c, "C05", gen.far_growth(r, c.n(12), False), "far growth"),
            maps(c, "C05", gen.hists(r, c.n(160), 8, w), "random histories"),
            maps(c, "C05", gen.larges(r, c.n(4)), "large maps"),
            maps(c, "C05", gen.edge_growth(2) + (gen.edge_growth(3) if c.thorough else []), "every edge position"),
            maps(c, "C05", emitted_maps(c, ["new", "newd", "set", "exp"], 4, c.n(150)), "model behaviours")]


def C06(c):
    r = c.rng("C06")
    w = dict(out=8, set=1, exp=0.6, hit=0.5, trk=0.3, int=0.3, new=0.5)
    grid = []
    for D in (2, 3):
        for kind in "fibo":
            for j, n in enumerate(([2, 3, 1], [3, 1, 2], [1, 1, 1])):
                h = "hist %d 4 0.5 %s 2 1 0 1 1 -1 -9 9 0 0" % (D, kind)
                lines = [h, gen.j("arr 0", j % 3, [1, -2, 0][:D], n[:D], [(i * 7 + 1) % 2 if kind == "b" else i + 1
                         for i in range(n[0] * n[1] * (n[2] if D == 3 else 1))])]
                for i in range(D):
                    for v in (-1, n[i], n[i] + 1, -n[i], 1 << 20, -(1 << 20)):
                        cc = [0] * D
                        cc[i] = v
                        for op in ("get", "set") + (("hit", "mis") if kind in "fo" else ()):
                            lines.append(gen.j(op, 0, cc, *([1] if op == "set" else [])))
                grid.append(lines)
    return [umaps(c, "C06"), big(c, "C06", 3, ops="exp out"),
            maps(c, "C06", grid, "every axis and side"),
            maps(c, "C06", gen.larges(r, c.n(3)), "large maps"),
            maps(c, "C06", gen.hists(r, c.n(120), 16, w), "random histories"),
            maps(c, "C06", emitted_maps(c, ["new", "newd", "set", "exp"], 4, c.n(120)), "model behaviours")]


def rays_suite(pid):
    def f(c):
        r = c.rng(pid)
        # C08 and C09 also judge what C07 judges: a malformed ray has no geometry.
        ids = {"C07": ["C07"], "C08": ["C07", "C08"], "C09": ["C07", "C09"]}[pid]
        lines = gen.rays(r, c.n(2200), limits=pid != "C08") + gen.rays_far(r, c.n(200))
        long = gen.rays_long(r, pid == "C07") + (gen.rays_slopes(r) if pid == "C08" else [])
        return [T("TraceGeom", tcfg(*ids), gen.pieces(long, 1), "long rays"),
                T("TraceGeom", tcfg(*ids), gen.pieces(lines, 64), "random rays"),
                T("TraceGeom", tcfg(*ids), gen.pieces(emitted_rays(c), 64), "all rays of the model")]
    return f


def C10(c):
    r = c.rng("C10")
    return [T("TraceGeom", tcfg("C10"), gen.pieces(gen.rays_strides(r, c.n(32)), 1), "long rays"),
            T("TraceGeom", tcfg("C10"), gen.pieces(gen.rays_crowd(r, c.n(5)), 1), "crowds"),
            T("TraceGeom", tcfg("C10"), gen.pieces(gen.clouds_rays(r, c.n(500)), 12), "clouds")]


UPD = ["new", "newd", "int", "trk"]


def C11(c):
    r = c.rng("C11")
    w = dict(int=6, again=0.7, set=1, exp=0.5, trk=0.2, new=0.2)
    return [big(c, "C11", 3, "fo", "int"),
            maps(c, "C11", gen.long_lives(r, c.n(4), ["int", "all"], "fo"), "long lives"),
            maps(c, "C11", gen.far_growth(r, c.n(12), True), "far growth"),
            maps(c, "C11", gen.int_crowd(r, c.n(4)), "very many points"),
            maps(c, "C11", gen.crowds(r, c.n(6)), "many points"),
            maps(c, "C11", gen.hists(r, c.n(140), 7, w, kinds="fo") + gen.default_occ(r, 3), "random histories"),
            maps(c, "C11", emitted_maps(c, ["new", "newd", "set", "int"], 4, c.n(80)), "model behaviours")]


def C12(c):
    r = c.rng("C12")
    w = dict(same=4, down=4, hit=2, mis=2, set=0.5, int=0.5, again=1)
    h = []
    for th in (0, 6, -3, 12, 28, 160, -160, 333, -333, 900):   # some that updates hit exactly, some far
        for D in (2, 3):
            lines = ["hist %d 4 0.5 %s 2 8 0 1 6 -3 -16 28 %d 0" % (D, "fo"[D - 2], th),
                     gen.j("new 0", [0] * D, [2] * D, 0)]
            lines += [gen.j("hit 0", [0] * D)] * 6 + [gen.j("mis 0", [0] * D)] * 16
            lines += [gen.j("mis 0", [1] * D)] * 6 + [gen.j("hit 0", [1] * D)] * 3
            for v in (th - 1, th, th + 1):
                lines.append(gen.j("set 0", [0] * D, v))
            h.append(lines)
    for mn, mx in ((-16, -16), (0, 0), (5, 5), (5, -5), (28, -16), (1, 0), (-40, 400), (-400, -40), (40, 400)):
        for D in (2, 3):
            lines = ["hist %d 4 0.5 %s 2 8 0 1 6 -3 %d %d 0 0" % (D, "fo"[(D + mn) % 2], mn, mx),
                     gen.j("new 0", [0] * D, [2] * D, 0)]
            for v in (0, mn - 1, mn, mn + 1, mx - 1, mx, mx + 1, 77, -77):
                for op in ("hit", "mis"):
                    lines += [gen.j("set 0", [1] * D, v)] + [gen.j(op, "0", [1] * D)] * 2
            lines.append(gen.j("int 0", [0] * D, 1, [4] * D))
            h.append(lines)
    return [maps(c, "C12", h, "thresholds and limits"),
            maps(c, "C12", gen.long_lives(r, c.n(4), ["hit", "int"], "fo"), "long lives"),
            maps(c, "C12", gen.hists(r, c.n(120), 30, w, kinds="fo", blank=0), "random histories"),
            maps(c, "C12", emitted_maps(c, ["new", "newd", "int", "hit"], 6, c.n(80)), "model behaviours")]


def C13(c):
    r = c.rng("C13")
    w = dict(int=8, exp=0.5, set=0.3, new=0.6, clone=0.1)
    e = gen.edge_clouds(2) + gen.edge_clouds(3)
    if not c.thorough:
        r.shuffle(e)
        e = e[:260]
    return [big(c, "C13", 3, "fo", "int"),
            maps(c, "C13", gen.long_lives(r, c.n(4), ["int", "exp"], "fo"), "long lives"),
            maps(c, "C13", gen.far_growth(r, c.n(12), True), "far growth"),
            maps(c, "C13", e, "every edge position"),
            maps(c, "C13", gen.int_crowd(r, c.n(4)), "very many points"),
            maps(c, "C13", gen.crowds(r, c.n(4)), "many points"),
            maps(c, "C13", gen.hists(r, c.n(140), 7, w, kinds="fo", blank=0.4) + gen.default_occ(r), "random histories"),
            maps(c, "C13", emitted_maps(c, ["new", "newd", "exp", "int"], 4, c.n(80)), "model behaviours")]


def C14(c):
    r = c.rng("C14")
    w = dict(int=5, trk=2, clr=1, add=1.2, exp=1.5, set=0.5, clone=0.3, hit=0.3, new=0.2)
    return [umaps(c, "C14"), big(c, "C14", 3, "fo", "int"),
            maps(c, "C14", gen.long_lives(r, c.n(4), ["trk", "int"], "fo"), "long lives"),
            maps(c, "C14", gen.far_growth(r, c.n(12), True), "far growth"),
            maps(c, "C14", gen.int_crowd(r, c.n(4)), "very many points"),
            maps(c, "C14", gen.crowds(r, c.n(6)), "many points"),
            maps(c, "C14", gen.marked(r, c.n(6)), "many marks"),
            maps(c, "C14", gen.hists(r, c.n(160), 10, w, kinds="fo"), "random histories"),
            maps(c, "C14", emitted_maps(c, ["new", "newd", "trk", "clr", "add", "exp", "int"], 5, c.n(120)),
                 "model behaviours")]


def C15(c):
    r = c.rng("C15")
    w = dict(int=3, trk=1, clr=0.6, add=0.6, exp=1, set=2, get=2, hit=0.5, mis=0.5, cfp=2, pfc=2, out=1, new=0.6)
    return [umaps(c, "C15", "o"), big(c, "C15", 2, "o", "int"),
            T("TraceMap", tcfg("C01", "C04", "C15"),
              gen.hists(r, c.n(140), 14, w, kinds="o") + gen.default_occ(r, 4), "random histories"),
            T("TraceMap", tcfg("C01", "C04", "C15"),
              gen.hists(r, c.n(100), 12, w, kinds="n") + gen.default_occ(r, 3, kinds="n"), "another noise model"),
            T("TraceMap", tcfg("C01", "C04", "C15"),
              [p for p in emitted_maps(c, ["new", "newd", "set", "trk", "clr", "add", "exp", "int", "hit"], 5,
                                       c.n(120)) if " o " in p[0]], "model behaviours")]


def C16(c):
    r = c.rng("C16")
    w = dict(clone=4, set=4, exp=1.5, trk=1, clr=1, add=1, int=1, hit=0.5, new=0.5)
    return [umaps(c, "C16"), big(c, "C16", 3, ops="clone"),
            maps(c, "C16", gen.long_lives(r, c.n(4), ["clone", "all"], "fibo"), "long lives"),
            maps(c, "C16", gen.far_growth(r, c.n(12), False), "far growth"),
            maps(c, "C16", gen.larges(r, c.n(3)), "large maps"),
            maps(c, "C16", gen.reclones(r, c.n(60)), "clones over maps"),
            maps(c, "C16", gen.hists(r, c.n(140), 14, w, blank=0.1), "random histories"),
            maps(c, "C16", emitted_maps(c, ["new", "set", "exp", "trk", "clr", "add", "int", "clone"], 6, c.n(120)),
                 "model behaviours")]


def C17(c):
    r = c.rng("C17")
    return [T("TraceGeom", tcfg("C17"), gen.pieces(gen.clouds(r, c.n(1500)), 100), "point clouds")]


def C18(c):
    r = c.rng("C18")
    return [T("TraceGeom", tcfg("C18"), gen.pieces(gen.xfs(r, c.n(1200)), 100), "transforms")]


def kitti_models(c):
    n, b = (4, 13) if c.thorough else (3, 9)
    return [dict(module="MCKitti", name="KITTI readers",
                 cfg="SPECIFICATION Spec\nCONSTANTS ASPECTS = {} MAXFILES = %d MAXBYTES = %d REC = 4\n"
                     "INVARIANTS DirInv SortInv ErrInv BadInv OriginInv ScanInv\nPROPERTY DirTerminates\n"
                     "CHECK_DEADLOCK FALSE\n" % (n, b))]


def logodds_models(c):
    return [dict(module="MCLogOdds", name="odds lattice",
                 cfg="SPECIFICATION Spec\nCONSTANTS ASPECTS = {} MAX2 = 6 MAX3 = 4\n"
                     "INVARIANTS PathInv SignInv LnInv\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n")]


def kcfg(pid):
    return "SPECIFICATION TSpec\nCONSTANTS ASPECTS = %s\n" % aspects(pid)


def C19(c):
    return [T("TraceKitti", kcfg("C19"), gen.pieces(gen.kbigs(c.rng("C19big"), [1 << 17, 1 << 18, 300001, 1200000] +
                                              ([1 << 22, (1 << 22) + 7, 1 << 24] if c.thorough else [1 << 22]))
                         + gen.kcloud_grid() + gen.kclouds(c.rng("C19"), c.n(700)), 60),
              "scans")]


def C20(c):
    return [T("TraceKitti", kcfg("C20"), gen.pieces(gen.kdirs_long(c.rng("C20long"), [1030, 2050, 4200]), 1), "long listings"),
            T("TraceKitti", kcfg("C20"), gen.pieces(gen.kdir_grid() + gen.kdirs(c.rng("C20"), c.n(500)), 30),
              "directories")]


def C21(c):
    return [T("TraceKitti", kcfg("C21"), gen.pieces(gen.kpose_grid() + gen.kposes(c.rng("C21"), c.n(1200)), 60),
              "poses")]


def C22(c):
    return [T("TraceLogOdds", kcfg("C22"), gen.pieces(gen.logodds(c.rng("C22"), c.n(60)), 20), "log-odds")]


def C24(c):
    r = c.rng("C24")
    return [T("TraceGeom", tcfg("C24"), gen.pieces(gen.eqs(r, c.n(900)), 100), "equality and literals"),
            T("TraceLogOdds", kcfg("C24"), gen.pieces(gen.signs(r, c.n(150)), 20), "signs")]


def viz_models(c):
    def cfg(scans, launches, variant, what):
        return ("SPECIFICATION Spec\nCONSTANTS SCANS = %d LAUNCHES = %d VARIANT = \"%s\"\n%s\n"
                % (scans, launches, variant, what))
    full = "INVARIANTS OneWorker InOrder Drawn\nPROPERTIES ObsRefined AllIntegrated"
    n = 14 if c.thorough else 7
    return [dict(module="Viz", name="window and worker", cfg=cfg(3, n, "code", full)),
            dict(module="Viz", name="window and worker, two scans", cfg=cfg(2, n, "code", full)),
            dict(module="Viz", name="worker finished too early (must deadlock)", expect="Deadlock reached",
                 cfg=cfg(3, 3, "early", full)),
            dict(module="Viz", name="hand-over after finished (must fail)", expect="Invariant Drawn is violated",
                 cfg=cfg(3, 3, "lost", "INVARIANTS Drawn")),
            dict(module="Viz", name="flag cleared after spawn (must fail)", expect="AllIntegrated",
                 cfg=cfg(3, 3, "order", "PROPERTIES AllIntegrated")),
            dict(module="Viz", name="table not keyed anew (must fail)", expect="Invariant Drawn is violated",
                 cfg=cfg(3, 5, "norekey", "INVARIANTS Drawn"))]


def C23(c):
    return [dict(T("TraceViz", "SPECIFICATION TSpec\nCONSTANTS FREEZE = TRUE ASPECTS = {}\n",
                   gen.viz(c.rng("C23"), c.n(24), c.n(12, 40)), "schedules"), driver="viz")]


ALLOPS = ["new", "newd", "set", "exp", "trk", "clr", "add", "int", "hit", "clone"]
PROPS = {
    "C01": (geom_model, C01), "C02": (lambda c: geom_model(c) + unbounded(c, ["CInit24"]), C02), "C03": (geom_model, C03),
    "C04": (map_models(["new", "set", "exp", "clone"], 3, 4), C04),
    "C05": (lambda c: map_models(["new", "newd", "set", "exp"], 3, 4)(c) + unbounded(c, ["CInit85"]), C05),
    "C06": (map_models(["new", "newd", "set", "exp"], 3, 4), C06),
    "C07": (ray_models, rays_suite("C07")), "C08": (ray_models, rays_suite("C08")),
    "C09": (ray_models, rays_suite("C09")), "C10": (ray_models, C10),
    "C11": (map_models(["new", "newd", "set", "int"], 3, 4), C11),
    "C12": (map_models(["newd", "int", "hit", "clone"], 4, 5, inv="GhostInv MarksInv ClampInv"), C12),
    "C13": (map_models(["new", "newd", "exp", "int"], 3, 4), C13),
    "C14": (map_models(["newd", "trk", "clr", "add", "exp", "int"], 3, 4), C14),
    "C15": (map_models(ALLOPS, 2, 3), C15),
    "C16": (map_models(["new", "set", "trk", "add", "exp", "clone"], 3, 4), C16),
    "C19": (kitti_models, C19), "C20": (kitti_models, C20), "C21": (kitti_models, C21),
    "C22": (logodds_models, C22),
    "C17": (geom_model, C17), "C18": (geom_model, C18),
    "C23": (viz_models, C23), "C24": (geom_model, C24),
}


def run(c, pid):
    models, suite = PROPS[pid]
    c.binary(DRIVER.get(pid, "conf"))
    with ThreadPoolExecutor(3) as ex:
        fm = [ex.submit(c.check.run_model, c.work, m, c.stats) for m in models(c)]
        fs = ex.submit(suite, c)
        fv = []
        for s in fs.result():
            binary = c.binary(s.get("driver", "conf"))

            def go(part, s=s, binary=binary):
                fv.append(ex.submit(c.check.validate, c.work, s["module"], s["cfg"], binary, part, c.stats, 4,
                                    s["label"]))
            # very long suites are cut, so that one TLC run stays small
            cur, size = [], 0
            for p in s["pieces"]:
                cur.append(p)
                size += len(p)
                if size >= s.get("cut", 12000):
                    go(cur)
                    cur, size = [], 0
            if cur:
                go(cur)
        errs = []
        for f in fv + fm:
            try:
                f.result()
            except Exception as e:
                errs.append(e)
        for e in errs:
            if isinstance(e, c.check.Violation):
                raise e
        if errs:
            raise errs[0]


DRIVER = {"C23": "viz"}


def replay(c, pid, rec):
    c.check.validate(c.work, rec["module"], rec.get("cfg") or tcfg(pid), c.binary(DRIVER.get(pid, "conf")),
                     [rec["script"]], c.stats, 4, "replay")


TECHNIQUE = {"*": "TLA+ specification model-checked with TLC; executions of the real code validated against it by TLC"}
LEVEL_NOTES = {
    "*": "The specification is checked exhaustively within small bounds; the real code is run on every "
         "enumerated, generated and model-derived history of the suite and TLC decides whether each recorded event "
         "is allowed by the specification. Between the sampled inputs the code is not proved. Trusted: TLC, the "
         "conformance driver's recording, and f32 arithmetic staying within the stated slack on lattice inputs.",
}
NOT_APPLICABLE = {}
