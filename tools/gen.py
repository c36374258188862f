"""Script generators for the conformance driver.

A script is a list of pieces; a piece is a list of script lines that is validated as one behaviour.
The generators contain no expectations, only inputs; /verif/spec decides what must come out.
"""
import itertools, random

DYADIC = ["0.25", "0.5", "1", "2", "0.5", "1", "0.0078125", "512"]
ODD = ["0.1", "0.05", "0.3", "10", "0.1", "0.001", "137"]
RES = DYADIC + ODD
# powers of two whose squares f32 cannot represent
EXTREME = [repr(2.0 ** e) for e in (70, 100, -80, -110)]


def extreme(rng, res, p=0.06):
    return rng.choice(EXTREME) if rng.random() < p else res


def j(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(str(y) for y in x)
        else:
            out.append(str(x))
    return " ".join(out)


def pieces(lines, n=48):
    return [lines[i:i + n] for i in range(0, len(lines), n)]


def vec(rng, D, lo, hi):
    return [rng.randint(lo, hi) for _ in range(D)]


# ---------------------------------------------------------------- C01 .. C03, C17, C18
def conv(rng, n):
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8, 16])
        res = extreme(rng, rng.choice(RES))
        big = rng.choice([3, 50, 2000, 60000])
        if res in DYADIC and S <= 4 and rng.random() < 0.15:
            big = 600000
        c = vec(rng, D, -big, big)
        small = rng.choice([0, 3 * S, 200])
        off = vec(rng, D, -small, small)
        mode = rng.randint(0, 3)
        if mode == 0:      # near a border
            p = [x * S + o + S // 2 + rng.choice([-1, 0, 1]) for x, o in zip(vec(rng, D, -9, 9), off)]
        elif mode == 1:    # at a centre
            p = [x * S + o for x, o in zip(vec(rng, D, -9, 9), off)]
        else:
            p = vec(rng, D, -big, big)
        form = rng.randint(0, 1)
        r = [1] * D if form == 0 else [rng.choice([1, 2, 3, 5]) for _ in range(D)]
        out.append(j("conv", D, S, res, form, off, c, p, r))
    return out


def conv_grid(D):
    """every small cell and point around zero, exhaustively"""
    out = []
    S = 4
    for res in ("0.5", "0.1"):
        for x in range(-9, 10):
            for off in (0, 2, -3):
                for form in (0, 1):
                    c = [x // 2, -x, x][:D]
                    p = [x, -x, 2 * x + 1][:D]
                    r = [1] * D if form == 0 else [2, 1, 3][:D]
                    out.append(j("conv", D, S, res, form, [off] * D, c, p, r))
    return out


def boxes(rng, n):
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8, 16])
        res = rng.choice(DYADIC) if rng.random() < 0.6 else rng.choice(ODD)
        big = rng.choice([2 * S, 5 * S, 200 * S])
        tile = rng.choice([1, 2, 3, 5, 100])
        if rng.random() < 0.5:
            mn, mx = vec(rng, D, -big, big), vec(rng, D, -big, big)
            if rng.random() < 0.85:
                mn, mx = [min(a, b) for a, b in zip(mn, mx)], [max(a, b) for a, b in zip(mn, mx)]
            if rng.random() < 0.3:
                mn = [x // S * S for x in mn]
            if rng.random() < 0.3:
                mx = [x // S * S for x in mx]
            if any(a > b for a, b in zip(mn, mx)) and rng.random() < 0.5:
                # inverted on exactly one axis
                mn, mx = [min(a, b) for a, b in zip(mn, mx)], [max(a, b) + 1 for a, b in zip(mn, mx)]
                i = rng.randrange(D)
                mn[i], mx[i] = mx[i], mn[i]
            out.append(j("box", D, S, res, mn, mx, rng.randint(0, 1), tile))
        else:
            big = rng.choice([2, 7, 900])
            mn = vec(rng, D, -big, big)
            mx = [m + rng.choice([0, 1, 2, tile, rng.randint(0, big)]) for m in mn]
            if rng.random() < 0.15:
                i = rng.randrange(D)
                mn[i], mx[i] = mx[i] + 1, mn[i]
            r = [rng.choice([1, 2, 3, 5]) for _ in range(D)]
            out.append(j("cbox", D, S, res, tile, mn, mx, r))
    return out


def box_grid():
    """all boxes of a small 2D lattice, every alignment and tile"""
    out = []
    for S in (2, 4):
        for a in range(-2 * S, 2 * S + 1):
            for b in range(a, 2 * S + 1):
                out.append(j("box", 2, S, "0.5", [a, -b], [b, -a], 1, 3))
                out.append(j("box", 3, S, "2", [a, -b, a], [b, -a, b], 0, 2))
    # multiples of resolutions that binary cannot represent: within rounding, still aligned
    for res in ("0.1", "0.3", "0.05", "0.7"):
        for a in list(range(-40, 41)) + [977, -1023, 4099, -20011]:
            out.append(j("box", 2, 2, res, [2 * a, -2 * a], [2 * a + 4, 16 - 2 * a], a % 2, 3))
            out.append(j("box", 3, 2, res, [2 * a, -2 * a, 0], [2 * a + 2, 2 - 2 * a, abs(2 * a)], 1 - a % 2, 2))
    for tile in (1, 2, 3, 5):
        for a in range(-6, 7):
            for b in (a, a + 1, a + 2, a + 5):
                out.append(j("cbox", 2, 4, "0.5", tile, [a, -b], [b, -a], [1, 3]))
                out.append(j("cbox", 3, 4, "1", tile, [a, -b, 0], [b, -a, b - a], [2, 1, 3]))
    return out


def box2(rng, n):
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8])
        big = rng.choice([2, 6, 300, 100000])
        def one():
            if rng.random() < 0.12:
                return [0] * D, [0] * D
            a, b = vec(rng, D, -big, big), vec(rng, D, -big, big)
            a, b = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
            if rng.random() < 0.5:
                i = rng.randrange(D)
                q = rng.choice([0, a[i]])
                b[i] = max(q, a[i])
            return a, b
        (a, b), (c, d) = one(), one()
        z = rng.random()
        i = rng.randrange(D)
        if z < 0.2:        # nested
            c = [x - rng.randint(0, 2) for x in a]
            d = [x + rng.randint(0, 2) for x in b]
        elif z < 0.4:      # touching on one axis
            w = d[i] - c[i]
            c[i], d[i] = b[i], b[i] + w
        elif z < 0.6:      # same but for one axis
            c, d = list(a), list(b)
            c[i] -= rng.randint(0, 2)
            d[i] += rng.randint(-1, 2)
            if c[i] > d[i]:
                c[i] = d[i]
        out.append(j("box2", D, S, rng.choice(DYADIC), a, b, c, d))
    return out


def box2_grid():
    """all pairs of intervals on one axis, combined with a fixed other axis"""
    out = []
    iv = [(a, b) for a in range(-2, 3) for b in range(a, 3)]
    for (a, b) in iv:
        for (c, d) in iv:
            out.append(j("box2", 2, 2, "1", [a, -3], [b, 3], [c, -2], [d, 4]))
            out.append(j("box2", 3, 2, "1", [-1, -3, a], [5, 3, b], [-2, -2, c], [3, 4, d]))
    return out


def eqs(rng, n):
    """pairs of boxes that differ in nothing, in one coordinate, or anyhow; literals; signs"""
    out = []
    for D in (2, 3):
        for i in range(2 * D):
            for d in (-2, -1, 0, 1, 2):
                for ek in (0, 1, 2, 3, 4, 5):
                    a = [5, -7, 11][:D] + [9, 8, 13][:D]
                    b = list(a)
                    b[i] += d
                    out.append(j("eq", D, 2, "0.5", a, b, ek, 0))
                for rk in (0, 1, 5, 12, 13, 64):
                    out.append(j("eq", D, 4, "1", a, b, 0, rk))
                    out.append(j("eq", D, 4, "1", b, a, 1, rk))
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8])
        res = rng.choice(DYADIC)
        big = rng.choice([2, 60, 100000])
        a = vec(rng, 2 * D, -big, big)
        b = list(a)
        z = rng.random()
        if z < 0.75:
            for i in rng.sample(range(2 * D), rng.choice([1, 1, 2, 2 * D])):
                b[i] = rng.choice([a[i], a[i] + rng.choice([-1, 1, 3]), -a[i], a[i] + a[i] // 8])
        elif z < 0.9:
            b = vec(rng, 2 * D, -big, big)
        ek = rng.choice([0, 1, 2, 3, 6, 7, rng.randint(0, 2 * big)])
        out.append(j("eq", D, S, res, a, b, ek, rng.choice([0, 0, 1, 3, 8, 16, 63, 64])))
        out.append(j("lit", D, S, res, vec(rng, 2 * D, -big, big)))
    return out


def signs(rng, n):
    out = []
    for _ in range(n):
        e = rng.choice([0, 3, 3, 7, 12, 20, 35, 38, -5, -25])
        out.append(j("sgn", e, [rng.choice([0, 0, 1, -1, rng.randint(-9000, 9000)]) for _ in range(3)]))
    return out


def clouds(rng, n):
    out = [j("cloud", D, 4, "0.5", 66000, *[[k % 50, -(k % 7), k // 50][:D] for k in range(66000)])
           for D in rng.sample([2, 3], 1)]
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8])
        big = rng.choice([3, 40, 3000])
        m = rng.choice([0, 1, 1, 2, 3, 5, 12])
        if rng.random() < 0.01:
            m = rng.choice([64, 257, 700])
        lo, hi = rng.choice([(-big, big), (1, big), (-big, -1)])
        p = [vec(rng, D, lo, hi) for _ in range(m)]
        if m > 1 and rng.random() < 0.3:
            p[-1] = list(p[0])
        for q in range(m):      # points at the world origin, on its axes, and twice in a row
            z = rng.random()
            if z < 0.06:
                p[q] = [0] * D
            elif z < 0.12:
                p[q][rng.randrange(D)] = 0
            elif z < 0.18 and q:
                p[q] = list(p[q - 1])
        out.append(j("cloud", D, S, extreme(rng, rng.choice(RES)), m, *p))
    return out


def xfs(rng, n):
    out = [j("xf", 4, 1, 1, [0, -1, 0, 3, 1, 0, 0, 5, 0, 0, 1, -7], 66000, *[[k % 50, -(k % 7), k // 50] for k in range(66000)])]
    for k in range(n):
        S = rng.choice([2, 4, 8])
        kind = rng.randint(0, 5)
        t = [0] * 12
        den = 1
        if kind == 0:                       # translation
            lin = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        elif kind == 1:                     # signed axis permutation
            perm = rng.choice(list(itertools.permutations(range(3))))
            lin = [[0] * 3 for _ in range(3)]
            for r, c in enumerate(perm):
                lin[r][c] = rng.choice([1, -1])
        elif kind == 2:                     # one rotated plane
            lin = rng.choice([[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]],
                              [[0, 0, 1], [0, 1, 0], [-1, 0, 0]]])
        elif kind == 3:                     # nearly the identity
            den = rng.choice([256, 1024, 4096])
            lin = [[den, 0, 0], [0, den, 0], [0, 0, den]]
            for _ in range(rng.choice([1, 2])):
                a, b = rng.sample(range(3), 2)
                q = rng.choice([1, 2, 5])
                lin[a][b] += q
                lin[b][a] -= q
            if rng.random() < 0.3:
                a = rng.randrange(3)
                lin[a][a] += rng.choice([-1, 1, 2])
        elif kind == 4:                     # any fraction
            den = rng.choice([2, 16, 64])
            lin = [[rng.randint(-2 * den, 2 * den) for _ in range(3)] for _ in range(3)]
        else:
            lin = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(3)]
        for r in range(3):
            for c in range(3):
                t[r * 4 + c] = lin[r][c]
            t[r * 4 + 3] = rng.choice([0, rng.randint(-50, 50)])
        m = rng.choice([0, 1, 2, 5, 9])
        if rng.random() < 0.01:
            m = rng.choice([65, 300])
        big = rng.choice([90, 2500])
        p = [vec(rng, 3, -big, big) for _ in range(m)]
        for q in range(m):
            z = rng.random()
            if z < 0.08:
                p[q] = [0] * 3
            elif z < 0.14 and q:
                p[q] = list(p[q - 1])
        # metres, fractions of millimetres, or thousands of kilometres
        res = rng.choice(["1", "1", "1", "0.0000152587890625", "1048576", extreme(rng, "1", 0.3)])
        out.append(j("xf", S, res, den, t, m, *p))
    return out


# ---------------------------------------------------------------- C07 .. C10
NOLIMIT = 1000000000      # an infinite range limit


def ray(rng, D, S, res, m, o, e, ml):
    span = max([abs(a - b) for a, b in zip(o, e)] + [1])
    off = max([abs(a - b) for a, b in zip(o, m)] + [1])
    exact = res in DYADIC + EXTREME + ["10"] and span <= 64
    tt = 8 if span > 1000 else 1 if span > 64 or off > 200 else 0
    et = 0 if exact or ml <= 0 or ml == NOLIMIT else 1 + ml * ml // 100000
    return j("ray", D, S, res, m, o, e, ml, tt, et)


def rays(rng, n, limits=True):
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4, 8, 8])
        res = extreme(rng, rng.choice(DYADIC) if rng.random() < 0.5 else rng.choice(ODD))
        span = rng.choice([4, 8, 16, 48, 64])
        if rng.random() < 0.1:
            span = rng.choice([200, 700])
            if rng.random() < 0.2:
                S, span = 2, 1600
        elif rng.random() < 0.2:
            S = rng.choice([32, 64, 256])
            span = rng.choice([64, 60, 30])
        m = vec(rng, D, -3, 3)
        m = [x * S for x in m] if rng.random() < 0.7 else vec(rng, D, -2 * S, 2 * S)
        o = vec(rng, D, -span // 2, span - span // 2)
        z = rng.random()
        if z < 0.15:      # axis parallel
            e = list(o)
            i = rng.randrange(D)
            e[i] = o[i] + rng.randint(-span, span)
        elif z < 0.35:    # diagonal: ties at every corner
            q = rng.randint(-span, span)
            e = [x + q * rng.choice([1, -1]) for x in o]
            if D == 3 and rng.random() < 0.4:
                e[rng.randrange(3)] = o[rng.randrange(3)]
        elif z < 0.5:     # ends on a lattice border or centre
            e = [x // (S // 2) * (S // 2) for x in vec(rng, D, -span, span)]
            if rng.random() < 0.5:
                o = [x // (S // 2) * (S // 2) for x in o]
        elif z < 0.55:    # same or neighbouring cell
            e = [x + rng.randint(-S, S) for x in o]
        elif z < 0.59:    # very short, across a border
            o = [x * S + a + S // 2 + rng.choice([-1, 1]) for x, a in zip(vec(rng, D, -2, 2), m)]
            e = [x + rng.randint(-3, 3) for x in o]
        elif z < 0.65:    # shallow: one long and short other axes
            e = [x + rng.randint(-2, 2) for x in o]
            i = rng.randrange(D)
            e[i] = o[i] + rng.choice([-span, span])
        else:
            e = vec(rng, D, -span, span)
        ml = 0
        if limits:
            z = rng.random()
            d2 = sum((a - b) ** 2 for a, b in zip(o, e))
            if z < 0.25:
                ml = 0
            elif z < 0.3:
                ml = rng.choice([-rng.randint(1, 50), NOLIMIT])
            elif z < 0.5:
                ml = rng.randint(1, 3 * S)
            elif z < 0.7:
                ml = 2 * S * rng.randint(1, 6)
            elif z < 0.9:
                ml = max(1, int(2 * d2 ** 0.5) + rng.randint(-2 * S, 2 * S))
            else:
                ml = 4 * span + 10 * S
        elif rng.random() < 0.2:
            ml = 4 * (sum(abs(a - b) for a, b in zip(o, e))) + 20 * S
        out.append(ray(rng, D, S, res, m, o, e, ml))
    return out


def rays_far(rng, n):
    """origins and ends far from the world origin, boxes at the far end"""
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = rng.choice([2, 4])
        base = [S * rng.randint(-2000, 2000) for _ in range(D)]
        o = [b + rng.randint(-9, 9) for b in base]
        e = [b + rng.randint(-30, 30) for b in base]
        m = [b - S * rng.randint(0, 20) for b in base]
        out.append(j("ray", D, S, rng.choice(["0.5", "1", "2"]), m, o, e, 0, 0, 0))
    return out


def crowd(rng, p):
    """A big cloud of few different points, block by block or mixed."""
    n = rng.choice([33, 65, 130, 257, 300, 513, 700, 1025])
    if rng.random() < 0.3:
        return [list(rng.choice(p)) for _ in range(n)]
    q = [list(x) for x in p]
    rng.shuffle(q)
    return [list(q[0])] * n + [x for a in q[1:] for x in [list(a)] * rng.choice([1, 2, n])]


def rays_long(rng, slopes):
    """tens of thousands of cells; the borders of one axis decide nothing about rounding"""
    out = []
    for k, n in enumerate([300, 5000, 33000, 70000]):
        D = rng.choice([2, 3])
        S = 2
        o = vec(rng, D, -5, 5)
        e = list(o)
        i = rng.randrange(D)
        e[i] += rng.choice([-1, 1]) * (n * S + rng.randint(0, 3))
        if slopes and k < 3:
            q = rng.choice([x for x in range(D) if x != i])
            e[q] += rng.choice([-1, 1]) * rng.choice([3, 50, n * S // 3])
        m = [min(a, b) - S for a, b in zip(o, e)]
        m = [S * (x // S) for x in m]
        out.append(ray(rng, D, S, rng.choice(["0.5", "1"]), m, o, e, 0))
    return out


def rays_slopes(rng):
    """thousands of cells along a slope; what f32 may have lost in that many additions is allowed for"""
    out = []
    for n in (2500, 4500, 6500, 9300):
        D = rng.choice([2, 3])
        S = 2
        o = vec(rng, D, -5, 5)
        e = list(o)
        i, q = rng.sample(range(D), 2)
        e[i] += rng.choice([-1, 1]) * (n * S + rng.randint(0, 3))
        e[q] += rng.choice([-1, 1]) * rng.choice([n // 40, n // 9, n // 3, n])
        m = [S * ((min(a, b) - S) // S) for a, b in zip(o, e)]
        tt = 64 + int(64 * 1.3 * n * n * S / 2 ** 25)
        out.append(j("ray", D, S, rng.choice(["0.5", "1"]), m, o, e, 0, tt, 0))
    return out


STRIDES = [100, 128, 255, 256, 257, 1000, 1024, 4096]


def rays_strides(rng, n):
    """Rays of many cells, and ends that differ from cells of those rays by a stride along an axis or by
    a stride along one axis and one cell along another."""
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = 2
        w = STRIDES[k % len(STRIDES)]
        o = [S * x for x in vec(rng, D, -3, 3)]
        i = rng.randrange(D)
        i2 = rng.choice([x for x in range(D) if x != i])
        sg = rng.choice([-1, 1])
        far = list(o)
        far[i] += sg * S * (w + 20)
        p = [far]
        for c in range(rng.randint(6, 14)):
            q = list(o)
            q[i] += sg * S * (c + 1 + (w if c == 3 else 0))
            if rng.random() < 0.6:
                q[i2] += S * rng.choice([-1, 1])
                if rng.random() < 0.3:
                    q[i] = o[i] + S * rng.randint(-2, 2)
            p.append(q)
        rng.shuffle(p)
        out.append(j("rays", D, S, rng.choice(["0.5", "1"]), [0] * D, o, 0, len(p), *p))
    return out


COUNTS = [65536, 70001, 131072, 32768, 262150]


def rays_crowd(rng, n):
    """Clouds of very many points: one of them, over and over, and then some others."""
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = 2
        o = vec(rng, D, -4, 4)
        p = [vec(rng, D, -7, 7) for _ in range(rng.randint(2, 5))]
        out.append(j("rays", D, S, "0.5", [0] * D, o, rng.choice([0, 0, 9]), len(p), *p, COUNTS[k % len(COUNTS)] - rng.choice([0, 1, 2])))
    return out


def int_crowd(rng, n, kinds="fo"):
    out = []
    for k in range(n):
        D = rng.choice([2, 3])
        S = 2
        lines = [j("hist", D, S, rng.choice(["0.5", "1"]), rng.choice(kinds), rng.choice([1, 2, 3]), 8, 0, 1,
                   [6, -3, -16, 28, 0, rng.choice([0, 0, 9])]),
                 rng.choice(["newd 0", j("new 0", [0] * D, [2] * D, 0)]), "trk 0 1"]
        o = vec(rng, D, -3, 3)
        p = [vec(rng, D, -3, 3)] + [vec(rng, D, -6, 6) for _ in range(rng.randint(1, 4))]
        lines += [j("int 0", o, len(p), *p, COUNTS[k % len(COUNTS)] - rng.choice([0, 1, 2])), j("int 0", o, 1, p[-1])]
        out.append(lines)
    return out


def clouds_rays(rng, n):
    out = []
    for k in range(n):
        D = rng.choice([2, 2, 3])
        S = rng.choice([2, 4])
        res = extreme(rng, rng.choice(DYADIC))
        span = rng.choice([2, 4, 6]) * S
        if D == 3:
            span = rng.choice([2, 3]) * S
        m = [x * S for x in vec(rng, D, -2, 2)]
        o = vec(rng, D, -span // 2, span // 2)
        np_ = rng.choice([0, 1, 2, 3, 4, 6])
        p = []
        for q in range(np_):
            z = rng.random()
            if p and z < 0.15:
                p.append(list(rng.choice(p)))                       # duplicate
            elif p and z < 0.35:                                    # behind or before another point
                a = rng.choice(p)
                f = rng.choice([2, 3])
                cand = [x + (y - x) * f // 2 for x, y in zip(o, a)]
                p.append([max(-2 * span, min(2 * span, x)) for x in cand])
            elif z < 0.42:
                p.append(list(o))
            else:
                p.append(vec(rng, D, -span, span))
        if p and (k % 20 == 7 or rng.random() < 0.02):
            if k % 20 == 7:     # something before and behind each point
                p = p[:3] + [[(x + y) // 2 for x, y in zip(o, a)] for a in p[:2]] + [[2 * y - x for x, y in zip(o, p[0])]]
            p = crowd(rng, p)
        elif p and k % 20 == 8:
            p = [[0] * D] * len(p)
        ml = rng.choice([0, 0, 2 * S * rng.randint(1, 4), rng.randint(1, 4 * span), 100 * span, NOLIMIT])
        out.append(j("rays", D, S, res, m, o, ml, len(p), *p))
    return out


# ---------------------------------------------------------------- histories
# np: hit, miss, min, max, threshold (in 1/8), range in half sub-units
def header(rng, D, kind, mode=None, S=None, tile=None):
    S = S or rng.choice([2, 4, 8])
    res = rng.choice(DYADIC) if rng.random() < 0.7 else rng.choice(["0.1", "0.3", "10", "0.1", "0.002", "90"])
    res = extreme(rng, res, 0.04)
    tile = tile or rng.choice([1, 2, 3, 5] if D == 2 else [1, 2, 3])
    if kind in "ibn":
        return j("hist", D, S, res, kind, tile, 1, 0, 1, [1, -1, -1, 1, 0, 0]), S
    if mode is None:
        mode = rng.choice([0, 1, 1, 1, 2] if kind == "f" else [1, 1, 1, 2])  # default(): see default_occ
    if mode == 0:
        if res not in ("0.25", "0.5", "1", "2", "0.3", "10"):       # 60 m are a whole number of sub-units
            res = "0.1"
        np_ = [847298, -405465, -2000028, 3511031, 0, max(1, round(2 * S * 60 / float(res)))]
        # (values fixed by C22; here they are what the default model is documented to be)
        return j("hist", D, S, res, kind, tile, 1000000, 3, 0, np_), S
    rangev = rng.choice([0, NOLIMIT, 2 * S * rng.randint(1, 5), 2 * S * 40])
    if mode == 1:
        np_ = [rng.choice([6, 3]), rng.choice([-3, -5]), rng.choice([-16, -7]), rng.choice([28, 13]),
               rng.choice([0, 5, -4]), rangev]
        if rng.random() < 0.3:      # far from the default: far limits, certain sensors, inverted ones
            for i, xs in enumerate([[160, 1, -3], [-200, -1, 2], [-400, 5, -24], [400, -5, 90], [200, -200, 333, 40]]):
                if rng.random() < 0.5:
                    np_[i] = rng.choice(xs)
        if rng.random() < 0.1:      # limits that coincide or are swapped
            np_[3] = np_[2] + rng.choice([0, -1, -9])
        return j("hist", D, S, res, kind, tile, 8, 0, 1, np_), S
    # probabilities 1/2, 2/3, 3/4, 1/3, 1/4, 8/9, 1/9 would need thirds; use per mille values
    # whose log-odds are known to a millionth.
    lo = {500: 0, 750: 1098612, 250: -1098612, 800: 1386294, 200: -1386294, 900: 2197225,
          100: -2197225, 600: 405465, 400: -405465}
    pr = [rng.choice([600, 750]), rng.choice([400, 250]), rng.choice([200, 100]),
          rng.choice([800, 900]), rng.choice([500, 600, 400])]
    np_ = [lo[p] for p in pr] + [rangev]
    return j("hist", D, S, res, kind, tile, 1000000, 3, 2, np_, pr), S


SPECIAL = [2000000000, -2000000000, 2000000001]     # stand for +inf, -inf and NaN in float maps
VALS = {"f": [0, 1, -1, 7, -9, 30, 1000], "o": [0, 1, -1, 7, -9, 30, 1000],
        "i": [0, 1, -1, 7, 1000000, -40, 16777217, -1234567891], "b": [0, 1],
        "n": [0, 1, -1, 7, 30, 250]}


class Hist:
    """One random history. w: weights of the operations."""

    def __init__(self, rng, D, kind, w, n, mode=None, S=None, tile=None, blank=0.25, span=8):
        self.rng, self.D, self.kind = rng, D, kind
        # values beyond arithmetic, where nothing is added to them
        self.special = not set(w) & {"int", "again", "hit", "mis", "same", "down"} and rng.random() < 0.3
        h, self.S = header(rng, D, kind, mode, S, tile)
        w6 = h.split()
        self.big = w6[6] == "1000000"
        # values around the limits and the threshold
        self.near = [int(x) + d for x in w6[9:14] for d in (-1, 0, 1)] if w6[6] == "8" else []
        self.lines = [h]
        self.live = set()
        self.span = span if D == 2 else max(2, span // 3)
        self.blank = blank
        self.extent = {}
        self.recent = []
        ops = list(w)
        self.new(0)
        while len(self.lines) <= n:
            op = rng.choices(ops, [w[o] for o in ops])[0]
            k = rng.choice(sorted(self.live))
            getattr(self, "op_" + op)(k)

    def add(self, *xs):
        self.lines.append(j(*xs))

    def val(self):
        if self.special and self.kind in "fo" and self.rng.random() < 0.4:
            return self.rng.choice(SPECIAL)
        if self.special and self.kind == "i" and self.rng.random() < 0.4:
            return self.rng.choice([1999999999, -1999999999])
        if self.near and self.rng.random() < 0.3:
            return self.rng.choice(self.near)
        v = self.rng.choice(VALS[self.kind])
        return v * 1000 if self.big else v

    def pt(self):
        s, S, rng = self.span, self.S, self.rng
        z = rng.random()
        if z < 0.25:    # on the lattice of centres
            return [x * S for x in vec(rng, self.D, -s, s)]
        if z < 0.45:    # on the borders
            return [x * S + S // 2 for x in vec(rng, self.D, -s, s)]
        return vec(rng, self.D, -s * S, s * S)

    def cell(self, k, out=0.12):
        """often one of those used last"""
        if out < 1 and self.recent and self.rng.random() < 0.3:
            c = self.rng.choice(self.recent)
            if out or all(x < y for x, y in zip(c, self.extent.get(k, [3] * self.D))):
                return list(c)
        c = self.fresh_cell(k, out)
        if out < 1 and all(abs(x) < 100 for x in c):
            self.recent = self.recent[-2:] + [list(c)]
        return c

    def fresh_cell(self, k, out):
        rng = self.rng
        n = self.extent.get(k, [3] * self.D)
        c = [rng.randint(0, max(0, x - 1)) for x in n]
        if rng.random() < out:
            i = rng.randrange(self.D)
            c[i] = rng.choice([-1, -n[i], n[i], n[i] + 1, n[i] + 5, -100000, 100000, 65536, -65536,
                               65536 + c[i], 2 ** 32, 2 ** 32 + c[i], -2 ** 32 + c[i], 2 ** 40, 2 ** 16 + c[i],
                               2 ** 31 + c[i], 2 ** 62 + c[i], 2 ** 63 - 1, -2 ** 63, -2 ** 63 + c[i], 256 + c[i]])
        return c

    def new(self, k):
        rng, D = self.rng, self.D
        if rng.random() < self.blank:
            if rng.random() < 0.5:
                self.add("newd", k)
            else:
                self.add("new", k, [0] * D, [0] * D, 0)
            self.extent[k] = [0] * D
        else:
            lo = vec(rng, D, -3, 3)
            n = [rng.randint(1, 5 if D == 2 else 3) for _ in range(D)]
            if rng.random() < 0.35:
                tot = 1
                for x in n:
                    tot *= x
                vs = [self.val() if self.kind in "fo" else rng.choice(VALS[self.kind])
                      for _ in range(tot)]
                self.add("arr", k, rng.randint(0, 2), lo, n, vs)
            else:
                v = self.val()
                self.add("new", k, lo, [a + b for a, b in zip(lo, n)], v)
            self.extent[k] = n
        self.live.add(k)

    def op_new(self, k):
        self.new(self.rng.choice([0, 1]))

    def op_set(self, k):
        self.add("set", k, self.cell(k), self.val())

    def op_get(self, k):
        self.add("get", k, self.cell(k))

    def op_out(self, k):
        c = self.cell(k, 1.0)
        op = self.rng.choice(["set", "get"] + (["hit", "mis"] if self.kind in "fo" else []))
        self.add(op, k, c, *([self.val()] if op == "set" else []))

    def op_exp(self, k):
        a, b = self.pt(), self.pt()
        if self.rng.random() < 0.3:
            b = list(a)
        x, y = [min(p, q) for p, q in zip(a, b)], [max(p, q) for p, q in zip(a, b)]
        self.add("exp", k, x, y, self.val())
        self.grow(k, x, y)

    def grow(self, k, x, y):
        # a rough lower estimate, only to aim later accesses
        n = self.extent.get(k, [0] * self.D)
        self.extent[k] = [max(q, (b - a) // self.S + 1) for q, a, b in zip(n, x, y)]

    def op_trk(self, k):
        self.add("trk", k, self.rng.choice([0, 1, 1]))

    def op_clr(self, k):
        self.add("clr", k)

    def op_add(self, k):
        m = self.rng.choice([0, 1, 2])
        cs = [self.cell(k, 0) for _ in range(m)]
        self.add("add", k, m, *cs)

    def op_int(self, k):
        rng = self.rng
        s = self.span
        self.span = max(1, s // 2)
        o = self.pt() if rng.random() < 0.8 else [0] * self.D
        m = rng.choice([0, 1, 1, 2, 3, 4])
        p = []
        for _ in range(m):
            if p and rng.random() < 0.2:
                p.append(list(rng.choice(p)))
            elif p and rng.random() < 0.25:
                a = rng.choice(p)
                p.append([x + (y - x) // 2 for x, y in zip(o, a)])
            else:
                p.append(self.pt())
        self.span = s
        z = rng.random()
        if p and z < 0.03:      # everything at the world origin
            p = [[0] * self.D] * m
        elif p and z < 0.06:
            p = crowd(rng, p)
        m = len(p)
        self.add("int", k, o, m, *p)
        ps = p + [o, [0] * self.D]
        self.grow(k, [min(c) for c in zip(*ps)], [max(c) for c in zip(*ps)])
        self.lastint = (o, p)

    def op_again(self, k):
        """the same cloud again: values move towards their limits"""
        if not hasattr(self, "lastint"):
            return self.op_int(k)
        o, p = self.lastint
        for _ in range(self.rng.randint(1, 3)):
            self.add("int", k, o, len(p), *p)

    def op_hit(self, k):
        self.add("hit", k, self.cell(k))

    def op_mis(self, k):
        self.add("mis", k, self.cell(k))

    def op_same(self, k):
        """one cell, many updates"""
        c = self.cell(k, 0)
        for _ in range(self.rng.randint(3, 9)):
            self.add(self.rng.choice(["hit", "hit", "mis"]), k, c)

    def op_down(self, k):
        c = self.cell(k, 0)
        for _ in range(self.rng.randint(3, 9)):
            self.add(self.rng.choice(["mis", "mis", "hit"]), k, c)

    def op_clone(self, k):
        jj = self.rng.choice([x for x in (0, 1, 2) if x != k])
        self.add("clone", k, jj)
        self.live.add(jj)
        self.extent[jj] = list(self.extent.get(k, [0] * self.D))

    def op_cfp(self, k):
        self.add("cfp", k, self.pt())

    def op_pfc(self, k):
        self.add("pfc", k, vec(self.rng, self.D, -5, 9))


BASE = dict(set=0.2, get=0.15, exp=0.1, trk=0.15, clr=0.05, add=0.12, int=0.1, hit=0.1, mis=0.1, clone=0.1,
            cfp=0.05, pfc=0.05, new=0.05, out=0.05)


def hists(rng, count, n, w, kinds="fibo", **kw):
    """Every history may contain every operation: what is rare in one suite is the weight of another."""
    out = []
    for i in range(count):
        D = 2 if rng.random() < 0.6 else 3
        kind = rng.choice(kinds)
        ww = dict(w)
        if rng.random() < 0.6:
            tot = sum(w.values())
            for o, x in BASE.items():
                ww.setdefault(o, x * tot / 3)
        if kind == "n":
            for o in ("hit", "mis", "same", "down"):
                ww.pop(o, None)
        if kind in "ib" or rng.random() < 0.1 and set(w) & {"set"} and "int" not in w:
            for o in ("int", "again", "hit", "mis", "same", "down"):
                ww.pop(o, None)
        out.append(Hist(rng, D, kind, ww, n if D == 2 else max(6, n * 2 // 3), **kw).lines)
    return out


def crowds(rng, count):
    """Clouds of many points in large maps, several points to a cell."""
    out = []
    for _ in range(count):
        D = rng.choice([2, 2, 3])
        S = rng.choice([2, 4])
        tile = rng.choice([10, 50, 100]) if D == 2 else rng.choice([5, 10])
        kind = rng.choice("fo")
        np_ = [6, -3, -16, 28, 0, rng.choice([0, 0, 2 * S * 8])]
        lines = [j("hist", D, S, rng.choice(["0.5", "1"]), kind, tile, 8, 0, 1, np_), "newd 0"]
        r = 14 if D == 2 else 5
        pool = [vec(rng, D, -r * S, r * S) for _ in range(rng.choice([8, 40]) if D == 2 else 12)]
        o = vec(rng, D, -2 * S, 2 * S)
        for k in range(3):
            if rng.random() < 0.6:
                lines.append(j("trk 0", rng.choice([1, 1, 0])))
            m = rng.choice([20, 65, 130, 260, 520, 1100])
            p = [rng.choice(pool) for _ in range(m)]
            lines.append(j("int 0", o, m, *p))
        out.append(lines)
    return out


def marked(rng, count):
    """Long lists of marks on few cells."""
    out = []
    for i in range(count):
        D = rng.choice([2, 2, 3])
        S = 4
        kind = rng.choice("fobi")
        lines = [j("hist", D, S, "0.5", kind, rng.choice([1, 2, 3]), *([1, 0] if kind in "bi" else [8, 0]), 1, [6, -3, -16, 28, 0, 0]),
                 j("new 0", lo := vec(rng, D, -3, 3), [x + rng.randint(2, 4) for x in lo], 0)]
        pool = [vec(rng, D, 0, 3) for _ in range(rng.choice([1, 6, 15]))]
        left = 66000 if i == 0 else rng.choice([300, 1100, 2300, 4500, 9000])
        while left > 0:
            m = min(left, rng.choice([250, 1000, 4000]) if i else 33000)
            left -= m
            lines.append(j("add 0", m, *[rng.choice(pool) for _ in range(m)]))
            if rng.random() < 0.3:
                lines.append("trk 0 1")
        rest = ["trk 0 0", "trk 0 1"]
        x = vec(rng, D, -9, 20)
        rest.append(j("exp 0", x, x, 0))
        if kind in "fo":
            rest.append(j("int 0", vec(rng, D, -5, 9), 1, vec(rng, D, -9, 12)))
        rest.append(j("add 0", 1, rng.choice(pool)))
        rng.shuffle(rest)
        rest.insert(rng.randrange(len(rest)), "clone 0 1")
        lines += rest + ["clr 0", "trk 0 1", j("add 0", 1, rng.choice(pool))]
        out.append(lines)
    return out


def larges(rng, count):
    """Maps of more than 65536 cells."""
    out = []
    for _ in range(count):
        D = rng.choice([2, 3])
        n = rng.choice([[300, 260], [3, 30000], [30000, 3]]) if D == 2 else rng.choice([[45, 41, 40], [3, 200, 150]])
        lo = vec(rng, D, -20, 20)
        if max(n) > 1000:
            lo[n.index(max(n))] = -15000
        kind = rng.choice("fio")
        lines = [j("hist", D, 4, "0.5", kind, rng.choice([1, 10, 100]) if max(n) < 1000 and D == 2 else rng.choice([1, 2, 3]), 8, 0, 1,
                   [6, -3, -16, 28, 0, 0]),
                 j("new 0", lo, [a + b for a, b in zip(lo, n)], rng.choice([0, 5]))]
        def corner():
            return [rng.choice([0, 1, x // 2, x - 2, x - 1]) for x in n]
        for _ in range(2):
            lines.append(j("set 0", corner(), 7))
        lines.append(j("get 0", [x - 1 for x in n]))
        lines.append(j("set 0", [x - 1 for x in n], 9))
        c = [x - 1 for x in n]
        i = rng.randrange(D)
        c[i] = rng.choice([n[i], -1])
        lines.append(j("set 0", c, 3))
        i = rng.randrange(D)
        a = [x * 4 for x in lo]
        b = [(x + y - 1) * 4 for x, y in zip(lo, n)]
        if rng.random() < 0.5:
            a[i] -= 9
        else:
            b[i] += 9
        lines.append(j("exp 0", a, b, 2))
        if rng.random() < 0.4:
            lines += ["clone 0 1", j("set 1", corner(), 4)]
        out.append(lines)
    return out


def reclones(rng, count):
    """Clones into slots that hold a map already: as many cells in another shape, more cells, fewer, none."""
    out = []
    for _ in range(count):
        D = rng.choice([2, 2, 3])
        kind = rng.choice("fibo")
        h, S = header(rng, D, kind, None, None, rng.choice([1, 1, 2]))
        lines = [h]

        def new(k, lo, n):
            tot = 1
            for x in n:
                tot *= x
            if rng.random() < 0.5:
                lines.append(j("arr", k, rng.randint(0, 2), lo, n, [rng.choice([0, 1]) for _ in range(tot)]))
            else:
                lines.append(j("new", k, lo, [a + b for a, b in zip(lo, n)], rng.choice([0, 1])))
            for _ in range(2):
                lines.append(j("set", k, [rng.randrange(x) for x in n], rng.choice([0, 1])))
            if rng.random() < 0.6:
                lines.append(j("trk", k, rng.choice([0, 1])))
                lines.append(j("add", k, 1, [rng.randrange(x) for x in n]))
        n = [rng.randint(1, 4 if D == 2 else 3) for _ in range(D)]
        lo = vec(rng, D, -3, 3)
        new(0, lo, n)
        for _ in range(3):
            m = list(n)
            rng.shuffle(m)
            if rng.random() < 0.3:
                m[rng.randrange(D)] += rng.choice([1, 2])
            new(1, rng.choice([lo, vec(rng, D, -3, 3)]), m)
            a, b = rng.choice([(0, 1), (0, 1), (1, 2), (0, 2)])
            lines.append(j("clone", a, b))
            at = [x - 1 for x in (m if a == 1 else n)]
            lines.append(j("set", b, at, rng.choice([0, 1])))
            lines.append(j("get", a, at))
            lines.append(j("get", b, [0] * D))
            if rng.random() < 0.5:
                q = vec(rng, D, -4 * S, 4 * S)
                lines.append(j("exp", b, q, q, rng.choice([0, 1])))
        out.append(lines)
    return out


def far_growth(rng, count, clouds=True):
    """Growth and clouds that reach hundreds of tiles along one axis, on either side."""
    out = []
    for q in range(count):
        D = rng.choice([2, 2, 3])
        S = rng.choice([2, 4])
        kind = rng.choice("fo" if clouds else "fibo")
        np_ = [6, -3, -16, 28, 0, rng.choice([0, 0, 0, 2 * S * 50, 2 * S * 600])]
        vs = 8 if kind in "fo" else 1
        tile = rng.choice([1, 1, 2, 3, 7][:5 if D == 2 else 4])
        reach = [rng.choice([70, 140, 300, 1100, 9000 if D == 2 else 300]) for _ in range(3)]
        res = rng.choice(["0.5", "1", "0.1"])
        if res == "0.1" or tile == 7 or D == 3 and tile > 1:
            reach = [min(r, 300) for r in reach]
        lines = [j("hist", D, S, res, kind, tile, vs, 0, 1, np_)]
        lo = [tile * x for x in vec(rng, D, -1, 1)]
        if rng.random() < 0.3:
            lines.append("newd 0")
            n = [0] * D
        else:
            n = [tile] * D
            lines.append(j("new 0", lo, [a + tile for a in lo], rng.choice([0, 1])))
            lines.append(j("set 0", vec(rng, D, 0, tile - 1), 1))
        lines.append(j("trk 0", rng.choice([1, 1, 0])))
        if rng.random() < 0.6 and n[0]:
            lines.append(j("add 0", 2, vec(rng, D, 0, tile - 1), vec(rng, D, 0, tile - 1)))
        i = rng.randrange(D)        # one axis only: the others stay narrow
        def far(r):
            x = vec(rng, D, -1, S)
            x[i] = rng.choice([-1, 1]) * (S * r - rng.randint(0, S))
            return x
        for k in range(rng.choice([1, 2, 2, 3])):
            r = rng.choice(reach)
            if clouds and rng.random() < 0.7:
                r = min(r, 1100)
                o = far(rng.choice([0, 2, 70, r // 2])) if rng.random() < 0.6 else vec(rng, D, -1, S)
                pts = [far(r)] + [far(rng.randint(1, r)) for _ in range(rng.choice([0, 1, 2]))]
                if r > 300:     # along the axis: rounding decides nothing
                    pts = [o[:i] + [p[i]] + o[i + 1:] for p in pts]
                lines.append(j("int 0", o, len(pts), *pts))
            else:
                a = far(r)
                b = rng.choice([a, far(r), vec(rng, D, -1, S)])
                x, y = [min(p, q) for p, q in zip(a, b)], [max(p, q) for p, q in zip(a, b)]
                lines.append(j("exp 0", x, y, rng.choice([0, 1])))
        if rng.random() < 0.3:
            lines += ["clone 0 1", j("set 1", vec(rng, D, 0, 1), 1)]
        out.append(lines)
    return out


def long_lives(rng, count, ops, kinds="fo"):
    """Small maps that live through a thousand operations and more."""
    out = []
    for q in range(count):
        D = rng.choice([2, 2, 3])
        S = 2
        kind = rng.choice(kinds)
        vs = 8 if kind in "fo" else 1
        np_ = [rng.choice([6, 1]), rng.choice([-3, -1]), -4000, 4000, rng.choice([0, 5]), rng.choice([0, 0, 2 * S * 2])]
        which = ops[q % len(ops)]
        if which == "exp":      # hundreds of growths, one tile at a time
            lines = [j("hist", D, S, "0.5", kind, 1, vs, 0, 1, np_), j("new 0", [0] * D, [1] * D, 1)]
            lo, hi = [0] * D, [0] * D
            i = rng.randrange(D)
            for k in range(rng.choice([280, 560])):
                side = rng.random() < 0.4
                if side:
                    lo[i] -= 1
                else:
                    hi[i] += 1
                lines.append(j("exp 0", [x * S for x in lo], [x * S for x in hi], k % 2 if kind == "b" else k % 90))
            lines.append(j("set 0", [x - y for x, y in zip(hi, lo)], 1))
            out.append(lines)
            continue
        n = [rng.randint(1, 3) for _ in range(D)]
        lines = [j("hist", D, S, rng.choice(["0.5", "1"]), kind, 1, vs, 0, 1, np_), j("new 0", [0] * D, n, 0)]
        if which == "clone":
            for k in range(400):
                a = k % 3
                lines.append(j("clone", a, (a + 1) % 3))
                c = [rng.randrange(x) for x in n]
                lines.append(j("set", (a + rng.choice([0, 1])) % 3, c, k % 2 if kind == "b" else k))
            out.append(lines)
            continue
        if which in ("trk", "int") and rng.random() < 0.7:
            lines.append("trk 0 1")
        for k in range(rng.choice([300, 1100])):
            c = [rng.randrange(x) for x in n]
            pt = [[S * rng.randrange(x) for x in n] for _ in range(3)]
            op = rng.choice({"int": ["int"], "set": ["set", "set", "get"], "hit": ["hit", "hit", "mis"], "trk": ["trk", "clr", "add", "add"],
                             "all": ["int", "set", "hit", "mis", "trk", "clr", "add", "get", "exp"]}[which])
            if kind in "ib" and op in ("int", "hit", "mis"):
                op = "set"
            v = k % 2 if kind == "b" else k % 777
            lines.append({"int": j("int 0", pt[0], 1 + k % 2, *pt[1:2 + k % 2]), "set": j("set 0", c, v), "get": j("get 0", c),
                          "hit": j("hit 0", c), "mis": j("mis 0", c), "trk": j("trk 0", rng.choice([0, 1])), "clr": "clr 0",
                          "add": j("add 0 1", c), "exp": j("exp 0", pt[0], pt[0], v)}[op])
            if op in ("trk", "int") and k % 60 == 59:
                lines.append("clr 0")
        out.append(lines)
    return out


def default_occ(rng, n=6, kinds="o"):
    """Maps built by default(): resolution 0.1, tiles of 100 cells. kinds: o, f, i, b."""
    out = []
    S = 2
    for kind in kinds:
        np_ = [847298, -405465, -2000028, 3511031, 0, 2 * S * 600]
        vs, tol = (1000000, 3) if kind in "fo" else (1, 0)
        def head(D):
            return j("hist", D, S, "0.1", kind, 100, vs, tol, 0 if kind == "o" else 4, np_)
        lines = [head(2), "newd 0", "trk 0 1"]
        for i in range(n):
            o = vec(rng, 2, -9, 9)
            p = [vec(rng, 2, -30, 30) for _ in range(3)]
            if kind in "fon":
                lines.append(j("int", 0, o, len(p), *p))
            elif i < 2:
                lines += [j("exp", 0, [x - 1 for x in o], [x + 3 for x in o], 1), j("set 0", vec(rng, 2, 0, 99), 1)]
        out.append(lines)
        # in three dimensions one tile has a million cells: nothing but the empty map
        out.append([head(3), "newd 0", j("cfp 0", vec(rng, 3, -30, 30)), j("pfc 0", vec(rng, 3, -30, 30)),
                    "trk 0 1", "get 0 0 0 0", "newd 1", "clone 0 2"])
    return out


def edge_growth(D):
    """every position of one point relative to cells and tiles, from nothing and from a map"""
    out = []
    for S, res in ((4, "0.5"), (4, "0.1"), (2, "1")):
        for tile in (1, 2, 3):
            for x in range(-3 * S - 1, 3 * S + 2):
                for start in ("newd 0", j("new 0", [0] * D, [2] + [1] * (D - 1), 1)):
                    p = [x] + [0] * (D - 1)
                    h = j("hist", D, S, res, "f", tile, 8, 0, 1, [6, -3, -16, 28, 0, 0])
                    out.append([h, start, j("exp 0", p, p, 7)])
    return out


def edge_clouds(D):
    """sensor and single point at every position relative to cells and tiles"""
    out = []
    for S, res in ((4, "0.5"), (4, "0.1"), (2, "1")):
        for tile in (1, 2, 3):
            lines = []
            for x in range(-3 * S - 1, 3 * S + 2):
                h = j("hist", D, S, res, "o", tile, 8, 0, 1, [6, -3, -16, 28, 0, 0])
                p = [x] + [1] * (D - 1)
                q = [1] + [-x] + [0] * (D - 2)
                out.append([h, "newd 0", j("int 0", q, 1, p), j("int 0", p, 1, q)])
    return out


# ---------------------------------------------------------------- C19 .. C22
def words(rng, n):
    special = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc12345,
               1, 0x807fffff, 0x7f7fffff, 0x0d0a0d0a, 0x1a2b3c4d]
    out = [rng.choice(special) if rng.random() < 0.4 else rng.randrange(1 << 32) for _ in range(n)]
    for k in range(0, n - 3, 4):    # records that stand out as a whole
        z = rng.random()
        if z < 0.12:
            out[k:k + 4] = [rng.choice(special)] * 4
        elif z < 0.2:
            out[k:k + 3] = [rng.choice([0, 0, 0x80000000, 0x7fc00000, 0x7f800000])] * 3
        elif z < 0.28 and k:
            out[k:k + 3] = out[k - 4:k - 1]
        elif z < 0.36:
            out[k + 3] = rng.choice([0, 0x80000000, 0x7fc00000, 0x3f800000, 0xbf800000])
    return out


def kclouds(rng, n):
    out = []
    for k in range(n):
        z = rng.random()
        pts = rng.choice([0, 1, 2, 3, 7, 20])
        nw = 4 * pts
        tb = 0
        if z < 0.2:
            nw += rng.randint(1, 3)
        elif z < 0.35:
            tb = rng.randint(1, 3)
        elif z < 0.4:
            nw += rng.randint(0, 3)
            tb = rng.randint(0, 3)
        chunk = rng.choice([-1, 0, 0, 1, 3, 4, 5, 16, 17, 64, 1000])
        total = 4 * nw + tb
        fail = rng.randint(0, total) if chunk > 0 and rng.random() < 0.2 else -1
        out.append(j("kcloud", chunk, fail, tb, nw, words(rng, nw)))
    for pts in (64, 300, 1200, 2731, 5000):
        out.append(j("kcloud", rng.choice([-1, 0, 7, 4096]), -1, 0, 4 * pts, words(rng, 4 * pts)))
    big = [rng.randrange(1 << 32)] * 8
    out.append(j("kcloud", rng.choice([-1, 0, 65536]), -1, 0, 4 * 66000, *[big[k % 8] ^ k for k in range(4 * 66000)]))
    out.append(j("kcloud", 8192, 8192 * 5, 0, 16384, words(rng, 16384)))
    out.append(j("kcloud", rng.choice([-1, 0, 8192]), -1, 3, 4 * 2048, words(rng, 4 * 2048)))
    return out


def kbigs(rng, sizes):
    """scans of megabytes, whole and short of some bytes"""
    out = []
    for n in sizes:
        f = rng.randrange(1 << 30) * 2 + 1
        out.append(j("kbig", rng.choice([-1, 0, 4096, 65536, 100003]), n, rng.choice([0, 0, 0, 5]), f, rng.randrange(1 << 32)))
    return out


def kcloud_grid():
    """every length up to two records and a bit, every short-read size; a failure at every position"""
    out = []
    w = [0x3f800000, 0x7fc12345, 0x80000000, 0xdeadbeef, 0x01020304, 0xff800001, 1, 0x40490fdb, 0xc2c80000, 7]
    for nb in range(0, 41):
        for chunk in (0, 1, 5, 16, 64):
            out.append(j("kcloud", chunk, -1, nb % 4, nb // 4, w[:nb // 4]))
    for at in range(0, 33):
        out.append(j("kcloud", 3 + at % 5, at, 0, 8, w[:8]))
    return out


def kdir_grid():
    """every position of a bad entry; every creation order of four names; every kind of bad entry"""
    out = []
    nm = ["0000000002", "0000000010", "0000000001", "1"]
    odd = ["z%FF", "a%20b", ".hid", "%C3%A9"]
    for perm in itertools.permutations(range(4)):
        for names_ in (nm, odd):
            out.append(j("kdir clouds", perm[0] % 2, 4, *[j(names_[i], "cloud", i + 1, i) for i in perm]))
            out.append(j("kdir poses", perm[1] % 2, 4, *[j(names_[i], "pose", [45000000 + 10 * i, 8000000 + 300 * i,
                                                                               1000 * i], i * 400) for i in perm]))
    for n in range(1, 5):
        for b in range(n):
            for kind in ("bad 3", "dir", "link"):
                out.append(j("kdir clouds 1", n, *[nm[i] + " " + kind if i == b else j(nm[i], "cloud", i, 1)
                                                   for i in range(n)]))
                out.append(j("kdir poses 0", n, *[nm[i] + " " + kind if i == b else
                                                  j(nm[i], "pose", [60000000, 100 * i, i], 0) for i in range(n)]))
    for how in range(1, 16):
        out.append(j("kdir clouds", how % 2, 2, "a cloud 1 2", "b bad", how))
    for how in range(0, 13):
        out.append(j("kdir poses", how % 2, 2, "a pose 1000000 2000000 0 0", "b bad", how))
        out.append(j("kdir poses", how % 2, 2, "b pose 1000000 2000000 0 0", "a bad", how))
    for what in ("clouds", "poses"):
        for pr in (0, 1):
            out += [j("kdir", what, pr, -1), j("kdir", what, pr, 0)]
    return out


def kpose_grid():
    out = []
    for lat in list(range(-90, 91)):
        org = [lat * 1000000, 8400000 * (1 - 2 * (lat % 2)), 100000]
        for d in ([0, 1000, 0], [1000, 0, 0], [-777, 555, -333], [400000, -2500000, 50]) if lat % 15 == 0 else \
                ([-40, 900000, 7],):
            out.append(j("kpose", 1, org, [o + x for o, x in zip(org, d)], [0, 0, 0], [0, 0, 0], 30, -1, 0, 0, -1))
    for r in range(8):
        for p in range(8):
            for y in range(8):
                out.append(j("kpose", r % 2, [0, 0, 0], [10, 20, 30], [r, p, y], [0, 0, 0], 6, -1, 0, 0, -1))
    for nf in range(1, 9):
        for bad in range(-1, nf):
            for has in (0, 1):
                out.append(j("kpose", has, [0, 0, 0], [10, 20, 30], [1, 2, 3], [0, 0, 0], nf, bad, 0, 0, -1))
    for at in range(0, 80, 3):
        out.append(j("kpose", at % 2, [0, 0, 0], [10, 20, 30], [1, 2, 3], [0, 0, 0], 7, -1, 0, 1 + at % 7, at))
    return out


def names(rng, n):
    style = rng.randint(0, 5)
    if style == 5:      # where a name without its extension, or read as a number, would sort differently
        base = []
        while len(base) < n:
            b = "".join(rng.choice(["a", "1", "0", "10", "9", ".", "-", "%20", "%2B", "_", "b", "B"]) for _ in range(rng.randint(1, 5)))
            if b not in base and b not in (".", "..") and len(b) < 60:
                base.append(b)
        res = [b + rng.choice(["", "", ".txt", ".bin"]) for b in base]
        res = list(dict.fromkeys(res))
        while len(res) < n:
            res.append("zz%d" % len(res))
        rng.shuffle(res)
        return res
    if style == 0:
        base = ["%010d" % i for i in rng.sample(range(300), n)]
    elif style == 1:
        base = [str(i) for i in rng.sample(range(400), n)]
    elif style == 2:
        base = ["".join(rng.choice("abAB01-_") for _ in range(rng.randint(1, 4))) + "z" + str(i)
                for i in range(n)]
    elif style == 3:
        base = ["".join(rng.choice(["a", "B", "1", ".", "%20", "%FF", "%80", "%C3%A9", "~", "%01"])
                        for _ in range(rng.randint(1, 4))) + "x" + str(i) for i in range(n)]
    else:
        base = ["%03d" % i for i in range(n)]
    ext = rng.choice([".bin", ".txt", ""])
    res = [b + ext for b in base]
    rng.shuffle(res)
    return res


def kdirs(rng, n):
    out = []
    for k in range(n):
        what = rng.choice(["clouds", "poses"])
        pr = rng.randint(0, 1) + rng.choice([0, 0, 0, 2, 4, 6])
        z = rng.random()
        if z < 0.06:
            out.append(j("kdir", what, pr, rng.choice([-1, -2])))
            continue
        m = rng.choice([0, 1, 2, 3, 4, 6, 11])
        if rng.random() < 0.02:
            m = rng.choice([101, 130, 260])
        parts = []
        lat = rng.choice([0, 30000000, -30000000, 60000000, -45000000, rng.randint(-80, 80) * 1000000])
        wide = rng.choice([900, 900, 300000])
        bad = rng.randrange(m) if m and rng.random() < 0.3 else -1
        for i, nm in enumerate(names(rng, m)):
            if i == bad:
                parts.append(nm + " " + rng.choice(["bad %d" % rng.randint(1, 12), "dir", "link"]))
            elif i > 0 and bad < 0 and rng.random() < 0.12:
                parts.append(j(nm, rng.choice(["hard", "soft"]), rng.randrange(9)))
            elif what == "clouds":
                parts.append(j(nm, "cloud", i + 1, rng.choice([0, 1, 2, 3])))
            else:
                parts.append(j(nm, "pose", [lat + rng.randint(-wide, wide), rng.randint(-4 * wide, 4 * wide) + 8000000,
                                            rng.randint(-5000, 90000)], rng.choice([0, rng.randint(-3000, 3000)])))
        out.append(j("kdir", what, pr, m, *parts))
    return out


def kdirs_long(rng, sizes):
    """directories of thousands of files"""
    out = []
    for m in sizes:
        what = rng.choice(["clouds", "poses"])
        ns = ["%s%d%s" % (rng.choice(["", "00"]), x, rng.choice(["", ".txt"])) for x in rng.sample(range(20000), m)]
        parts = [j(nm, "cloud", i % 2000, 1) if what == "clouds" else
                 j(nm, "pose", [47000000 + i, 8000000 - 3 * i, 7 * i], i % 3000) for i, nm in enumerate(ns)]
        out.append(j("kdir", what, 0, m, *parts))
    return out


def kposes(rng, n):
    out = []
    for k in range(n):
        has = rng.choice([0, 1, 1, 1])
        lat0 = rng.choice([rng.randint(-88, 88) * 1000000, rng.randint(-85000000, 85000000), 0])
        org = [lat0, rng.choice([0, 8400000, -120000000, 179000000]), rng.randint(-400, 9000)]
        d = rng.choice([5, 300, 5000, 200000, 1000000])
        if rng.random() < 0.12:     # half way round the earth: whole millidegrees, positions in metres
            org = [rng.randint(-85, 85) * 1000000, rng.randint(-180000, 180000) * 1000, rng.randint(-400, 9000) * 1000]
            if rng.random() < 0.5:
                org[1] = rng.choice([-1, 1]) * rng.randint(170000, 180000) * 1000
            v = [rng.choice([org[0], rng.randint(-90, 90) * 1000000]),
                 rng.choice([-1, 1]) * rng.randint(90000, 180000) * 1000, rng.randint(-400, 9000) * 1000]
            if rng.random() < 0.2:
                org[1], v[1] = rng.randint(0, 359000) * 1000, rng.randint(0, 359000) * 1000
            out.append(j("kpose", 1, org, v, vec(rng, 3, -7, 7), [0, 0, 0], 30, -1, rng.randint(0, 5), 0, -1, 1000))
            continue
        v = [org[0] + rng.randint(-d, d), org[1] + rng.randint(-d, d), org[2] + rng.randint(-5000, 5000)]
        if rng.random() < 0.1:
            v[2] = org[2] + rng.randint(-9000000, 9000000)
        ang = rng.choice([[0, 0, 0], [rng.randint(-7, 7), 0, 0], [0, rng.randint(-7, 7), 0],
                          [0, 0, rng.randint(-7, 7)], vec(rng, 3, -7, 7)])
        eps = rng.choice([[0, 0, 0], vec(rng, 3, -3900, 3900), [rng.choice([0, 20, -35, 800]) for _ in range(3)]])
        z = rng.random()
        nf, bad = 30, -1
        if z < 0.15:
            nf = rng.randint(1, 7)
        elif z < 0.35:
            bad = rng.randint(0, 9)
            nf = rng.choice([6, 30])
        elif z < 0.6:
            nf = rng.choice([6, 7, 25])
        how = rng.choice([0, 0, -1, 1, 2, 7, 40])
        fail = rng.randint(0, 150) if how > 0 and rng.random() < 0.15 else -1
        out.append(j("kpose", has, org, v, ang, eps, nf, bad, rng.randint(0, 5), how, fail))
    return out


def logodds(rng, n):
    out = [j("logodds", i, k) for i in range(-6, 7) for k in range(-4, 5)]
    out += [j("logodds", i, k) for i in range(-60, -6) for k in (-1, 0, 2)]
    for _ in range(n):
        ps = sorted(rng.sample(range(2000, 998000), 24))
        ls = sorted(rng.sample(range(-9000, 9001), 24))
        if rng.random() < 0.5:      # far from one half
            t = sorted(set(rng.choice([1, 10, 100, 1000]) * rng.randint(1, 9) for _ in range(8)) - {2000})
            t = [x for x in t if x < 2000]
            ps = t + ps + [1000000 - x for x in reversed(t)]
        if rng.random() < 0.3:      # the ends: certainties
            ps = [0] + ps + [1000000]
        if rng.random() < 0.3:      # far away, and for ever
            ls = [-2000000000, -1000000, -100000, -20000] + ls + [20000, 88000, 89000, 100000, 1000000, 2000000000]
        out.append(j("lochain", len(ps), ps, len(ls), ls))
    mirror = sorted(set(rng.sample(range(2000, 499000), 30)))
    out.append(j("lochain", 2 * len(mirror) + 1, mirror + [500000] + [1000000 - p for p in reversed(mirror)],
                 1, [0]))
    out.append(j("nm", 0, [700000, 400000, 119200, 971000, 500000], 60000))
    for _ in range(2 * n):
        ps = [rng.randint(2000, 998000) for _ in range(5)]
        if rng.random() < 0.4:
            ps[rng.randrange(5)] = rng.choice([0, 1000000])
        if rng.random() < 0.4:
            ps[rng.randrange(5)] = rng.choice([-1, -1000, 1000001, 1500000, -2000000, 2000000000, -2000000000, 2000000001,
                                                2000000001, 2000000002, -2000000002])
        out.append(j("nm", 1, ps, rng.choice([0, 500, 60000, 120500, -1000, 1000000000])))
    return out


# ---------------------------------------------------------------- C23
def unturn(ang, w):
    """The point that Rz Ry Rx (quarter turns) maps to w."""
    x, y, z = w
    cs = [1, 0, -1, 0]
    c, s = cs[ang[2] % 4], cs[(ang[2] - 1) % 4]
    x, y = c * x + s * y, -s * x + c * y
    c, s = cs[ang[1] % 4], cs[(ang[1] - 1) % 4]
    x, z = c * x - s * z, s * x + c * z
    c, s = cs[ang[0] % 4], cs[(ang[0] - 1) % 4]
    y, z = c * y + s * z, -s * y + c * z
    return [x, y, z]


def viz_scene(rng, S=4, n=None):
    def inner(v):        # off the cell borders
        return v + rng.choice([-1, 1]) if v % S == S // 2 else v
    laps = 1 if n else rng.choice([1, 2, 2])
    n = n or rng.choice([2, 3, 4, 5])
    style = rng.choice(["flicker", "flicker", "grow", "mix"])
    z0 = rng.randint(-20, 20)
    still = rng.random() < 0.2      # the vehicle only moves up and down
    hs, seen = [], set()
    while len(hs) < n:
        h = inner(rng.randint(-12, 12) if n < 8 else rng.randint(-3 * n, 3 * n)) if hs else 0
        if h not in seen:
            seen.add(h)
            hs.append([0, 0, h] if still or not hs else [inner(rng.randint(-12, 12)) for _ in range(2)] + [h])
    targets, scans = [], []
    for k in range(n):
        pts = []
        for _ in range(rng.randint(1, 4)):
            if targets and (style == "flicker" or (style == "mix" and rng.random() < 0.5)):
                q = rng.choice(targets)
                o = hs[k]
                f = rng.choice([2, 3])
                w = [inner(a + f * (b - a)) for a, b in zip(o, q)]
            else:
                big = rng.choice([10, 30, 30, 60])
                lo = 3 if style == "grow" and k == 0 else -big
                w = [inner(rng.randint(lo, big)) for _ in range(3)]
                if style == "grow" and rng.random() < 0.12:
                    w[rng.randrange(3)] = inner(S * rng.choice([101, -101, 99]) + rng.randint(-2, 2))
                targets.append(w)
            pts.append(w)
        if rng.random() < 0.1:
            pts = []
        ang = rng.choice([[0, 0, 0], [0, 0, rng.randint(-3, 3)], vec(rng, 3, -2, 2)])
        back = [unturn(ang, [a - b for a, b in zip(w, hs[k])]) for w in pts]
        scans.append([[hs[k][0], hs[k][1], hs[k][2] + z0], ang, len(back), back])
    flat = []
    for at, ang, k, back in scans:
        flat += at + ang + [k] + [x for p in back for x in p]
    return j("viz", S, laps, n, flat)


def viz(rng, scenes, runs):
    return [[viz_scene(rng)] + ["run %d" % rng.randrange(1 << 30) for _ in range(runs)] for _ in range(scenes)] + \
        [[viz_scene(rng, n=n)] + ["run %d" % rng.randrange(1 << 30) for _ in range(2)] for n in (14, 40)]


def huge(rng, sizes, kinds="fibo", ops="exp"):
    """Histories of maps of millions of cells.  Every growth has a default value of its own, and every
    growth adds thousands of cells, so that counts and boxes decide the content (TraceBig)."""
    out = []
    for q, (D, total) in enumerate(sizes):
        kind = kinds[q % len(kinds)]
        S = rng.choice([2, 4])
        vs = 8 if kind in "fo" else 1
        tile = rng.choice([1, 5, 16, 64] if D == 2 else [2, 5, 16])
        side = int(total ** (1.0 / D))
        if D == 2 and rng.random() < 0.4:
            n = [side // 8, total // (side // 8)]
        else:
            n = [side] * D
        rng.shuffle(n)
        res = rng.choice(["0.5", "1", "2", "0.25"])
        lines = [j("bhist", D, S, res, kind, tile, vs, 0, 1, [6, -3, -16, 28, 0, rng.choice([0, 2 * S * 40])])]
        lo = [tile * rng.randint(-2, 2) for _ in n]
        defaults = [1, 0] if kind == "b" else [100, 7, -11, 55] if kind == "i" else [100, 200, 333]
        marks = ["trk 0 1", j("add 0", 2, [1] * D, [0] * D)] if rng.random() < 0.7 else []
        occ = "int" in ops and kind in "fo"
        some = lambda k: vec(rng, D, 0, k)
        # (of a bool map either the growths or the written cells differ)
        flip = kind == "b" and rng.random() < 0.5
        odd = lambda: rng.choice([17, 9, -5]) if kind != "b" else 0 if flip else 1
        if rng.random() < 0.5:          # small first, then huge
            if rng.random() < 0.5:
                lines.append("newd 0")
            else:
                lines.append(j("new 0", lo, [a + tile for a in lo] if tile < 16 else [a + 3 for a in lo], 0))
                lines.append(j("set 0", some(0), odd()))
                lines += marks
        else:
            n0 = [max(40, x // 2) for x in n]
            if tile > 1:
                n0 = [x // tile * tile + tile for x in n0]
            lines.append(j("new 0", lo, [a + x for a, x in zip(lo, n0)], 0))
            lines += marks
            for _ in range(3):
                lines.append(j("set 0", [rng.choice([0, x - 1, rng.randrange(x)]) for x in n0], odd()))
        if occ and "newd 0" not in lines and rng.random() < 0.5:
            c = [S * (a + 3) for a in lo]
            lines.append(j("int 0", c, 2, [x + rng.randint(-S, 3 * S) for x in c], [x + S for x in c]))
        sg = [rng.choice([-1, 1]) for _ in n]
        a = [S * (l if g > 0 else l - x) for l, x, g in zip(lo, n, sg)]
        b = [S * (l + x if g > 0 else l) for l, x, g in zip(lo, n, sg)]
        v = 0 if kind == "b" else 0 if occ else defaults[0]
        if flip:
            v = 1
        if occ and rng.random() < 0.6:  # the cloud itself makes it grow
            far = [x + 1 if g < 0 else y - 1 for x, y, g in zip(a, b, sg)]
            near = [S * (l + 2 * g) for l, g in zip(lo, sg)]
            lines[0] = lines[0].rsplit(" ", 1)[0] + " %d" % (2 * S * 40)
            lines.append(j("int 0", near, 3, far, [x + 5 for x in near], near))
        else:
            lines.append(j("exp 0", a, b, 0 if occ else v))
        if rng.random() < 0.5:
            lines.append(j("set 0", [rng.randrange(x - 1) for x in n], odd()))
        lines.append(j("get 0", [rng.randrange(x - 1) for x in n]))
        if flip:
            lines = [x for x in lines if not x.startswith("set")]
        if "out" in ops:
            for i in range(D):
                for k in (-1, 60000, 10 * n[i]):
                    c = some(3)
                    c[i] = k
                    lines.append(j("get 0", c) if rng.random() < 0.5 else j("set 0", c, 1))
        if "clone" in ops and not flip:
            lines += [j("clone 0 1"), j("set 1", some(3), odd()), j("set 0", [2] * D, odd())]
            if total < 3000000:
                lines.append(j("exp 1", [x - 70 * S for x in a], b, defaults[-1]))
        if occ:
            c = [(x + y) // 2 for x, y in zip(a, b)]
            lines.append(j("int 0", c, 3, *[[x + rng.randint(-9 * S, 9 * S) for x in c] for _ in range(3)]))
            lines.append(j("hit 0", [5] * D))
        elif total < 3000000 and kind != "b":
            k = rng.randrange(D)
            b2 = list(b)
            b2[k] += 40 * S
            lines.append(j("exp 0", a, b2, defaults[1]))
        if rng.random() < 0.3:
            lines.append("clr 0")
        out.append(lines)
    return out


def umaps(rng, count, kinds="fibo"):
    """Maps whose extents are not aligned with the lattice."""
    out = []
    for q in range(count):
        D = 2 + q % 2
        S = rng.choice([4, 8, 16])
        kind = kinds[q // 2 % len(kinds)]
        res = rng.choice(DYADIC + ["0.1", "0.3"])
        n = vec(rng, D, 1, 5)
        x = vec(rng, D, -5 * S, 5 * S)
        y = [a + S * k + (rng.randint(-S // 2 + 1, S // 2 - 1) if rng.random() < 0.5 else 0) for a, k in zip(x, n)]
        v = vec(rng, 4, 0, 1) if kind == "b" else [0] + rng.sample(range(1, 90), 3)
        cell = lambda: [rng.randrange(k) for k in n]
        c1, c2, c3 = cell(), cell(), cell()
        p = [a + S * rng.randint(-3, 9) + rng.randint(-S // 2 + 1, S // 2 - 1) for a in x]
        out.append(j("umap", D, S, res, kind, rng.randint(1, 4), x, y, n, v, c1, c2, c3, p))
    return out
