"""D01-D06: the planar triangulation and the convex hull."""
from fractions import Fraction
from math import cos, inf as INF, isqrt, nextafter, sin
from core import CheckError, conform, status
from c_meshes import num, certificate


def s(x):
    return repr(float(x))


def pts_args(ps):
    return {"p": [[s(c) for c in p] + (["0"] if len(p) == 2 else []) for p in ps]}


# ------------------------------------------------------------- generators
def grid(rng):
    w, h = rng.choice([(3, 3), (4, 4), (5, 3), (2, 7), (6, 6), (8, 2)])
    k = rng.choice([1, 1, 2, 3, 5])
    ps = [(x * k, y * k) for x in range(w) for y in range(h)]
    if rng.random() < 0.7:
        ps = rng.sample(ps, rng.randint(3, len(ps)))
    return ps


CIRCLE = [(x, y) for x in range(-65, 66) for y in range(-65, 66) if x * x + y * y == 4225]
CIRCLE2 = [(x, y) for x in range(-25, 26) for y in range(-25, 26) if x * x + y * y == 625]


def cocircular(rng):
    c = rng.choice([CIRCLE, CIRCLE2])
    ps = set(rng.sample(c, rng.randint(3, len(c))))
    for _ in range(rng.randint(0, 6)):
        ps.add((rng.randint(-70, 70), rng.randint(-70, 70)))
    if rng.random() < 0.3:
        ps.add((0, 0))
    return list(ps)


def lines(rng):
    ps = set()
    for _ in range(rng.randint(1, 4)):
        a, b = rng.randint(-40, 40), rng.randint(-40, 40)
        dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-3, 2), (7, 5)])
        for k in range(rng.randint(2, 9)):
            t = rng.randint(-9, 9)
            ps.add((a + t * dx, b + t * dy))
    for _ in range(rng.randint(0, 4)):
        ps.add((rng.randint(-60, 60), rng.randint(-60, 60)))
    return list(ps)


def clusters(rng):
    ps = set()
    for _ in range(rng.randint(2, 4)):
        x, y = rng.randint(-2000, 2000), rng.randint(-2000, 2000)
        for _ in range(rng.randint(1, 12)):
            ps.add((max(-2048, min(2048, x + rng.randint(-4, 4))), max(-2048, min(2048, y + rng.randint(-4, 4)))))
    return list(ps)


def uniform(rng, n=None, c=None):
    n = n or rng.choice([3, 4, 5, 6, 7, 8, 10, 13, 20, 40, 80])
    c = c or rng.choice([2, 3, 5, 10, 50, 300, 2048])
    return list({(rng.randint(-c, c), rng.randint(-c, c)) for _ in range(n)})


def sliver(rng):
    w = rng.choice([20, 200, 2000])
    return list({(rng.randint(-w, w), rng.randint(0, rng.choice([1, 1, 2, 3]))) for _ in range(rng.randint(3, 25))})


def ring(rng):
    """hull with many points"""
    from math import cos, sin, pi
    n, r = rng.randint(5, 60), rng.choice([20, 100, 900, 2000])
    ps = {(round(r * cos(2 * pi * k / n)), round(r * sin(2 * pi * k / n))) for k in range(n)}
    for _ in range(rng.randint(0, 20)):
        ps.add((rng.randint(-r // 2, r // 2), rng.randint(-r // 2, r // 2)))
    return list(ps)


def flat(ps):
    ps = list(dict.fromkeys((p[0], p[1]) for p in ps))
    if len(ps) < 3:
        return True
    (x0, y0), (x1, y1) = ps[:2]
    return all((x1 - x0) * (y - y0) == (y1 - y0) * (x - x0) for x, y in ps[2:])


def pointset(rng, kinds=None):
    """distinct, not all collinear, integers of at most 2048"""
    while True:
        ps = rng.choice(kinds or [grid, cocircular, lines, clusters, uniform, uniform, sliver, ring])(rng)
        if rng.random() < 0.25:
            dx, dy = rng.randint(-1000, 1000), rng.randint(-1000, 1000)
            ps = [(x + dx, y + dy) for x, y in ps]
            ps = [p for p in ps if max(map(abs, p)) <= 2048]
        if not flat(ps):
            o = rng.random()
            ps.sort(key=lambda p: p if o < 0.1 else (p[1], p[0])) if o < 0.2 else rng.shuffle(ps)
            if 0.2 <= o < 0.25:
                ps.sort(key=lambda p: -p[0] - p[1])
            return ps


def floats(rng):
    n = rng.choice([4, 5, 8, 15, 40])
    f = rng.choice([1, 1, 1e3, 1e-3, 1e6])
    return [(rng.uniform(-f, f), rng.uniform(-f, f)) for _ in range(n)]


def nearly(rng):
    """close to a line no float lies on exactly: sides are told apart by the last bit"""
    while True:
        n = rng.choice([3, 4, 5, 6, 8, 10, 15, 40])
        a, b = rng.choice([1 / 3, 0.1, -0.7, 3, 1.0, rng.uniform(-2, 2)]), rng.choice([0, 0, 1, 12.5, 1000.0, rng.uniform(-9, 9)])
        w = 2.0 ** rng.choice([-20, -20, -16, -12, -8])
        f = rng.choice([1, 1, 1, 8, 100])
        off = [rng.choice([0, 0, 0, 1, 2, -1]) * w for _ in range(n)]
        ps = [(x, b + x * a + o) for x, o in ((rng.uniform(0, f) if rng.random() < 0.7 else rng.randint(0, 64) * f / 64, o) for o in off)]
        if rng.random() < 0.2:
            ps.append((rng.uniform(-f, f), rng.uniform(-f, f)))
            off.append(-7)
        if rng.random() < 0.3:
            ps = [(y, x) for x, y in ps]
        rng.shuffle(ps)
        # not within rounding of a line as a whole, no two at one place
        if len(set(off)) > 1 and not flat([tuple(map(Fraction, p)) for p in ps]) and all((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 > 1e-10 for i, p in enumerate(ps) for q in ps[:i]):
            return ps


def scaled(rng, ps):
    """whole-number points in another unit, a power of two"""
    if rng.random() < 0.7:
        return ps
    f = 2.0 ** rng.choice([-22, -20, -16, -10, -5, -1, 3, 10, 25, 40])
    return [(p[0] * f, p[1] * f) + tuple(p[2:]) for p in ps]


def with_z(rng, ps):
    return [(x, y, rng.randint(-50, 50)) for x, y in ps]


# ---------------------------------------------------------------- records
def base(ps, extra=()):
    """P, loc, sorted of spec/Trace_Planar.tla"""
    fr = [tuple(Fraction(float(c)) for c in p) for p in ps]
    den = max([c.denominator for p in fr for c in p] + [Fraction(float(c)).denominator for c in extra] + [1])
    P = [[num(int(c * den)) for c in p] for p in fr]
    first, loc = {}, []
    for i, p in enumerate(fr):
        loc.append(first.setdefault(p[:2], i))
    order = [first[k] for k in sorted(first)]
    size = 0
    if fr:
        size = max(max(p[k] for p in fr) - min(p[k] for p in fr) for k in (0, 1))
    inputs = set(tuple(float(c) for c in p) + ((0.0,) if len(p) == 2 else ()) for p in ps)
    return {"P": P, "loc": loc, "sorted": order, "nv": len(ps), "size": num(int(size * den)), "den": den, "exact": den == 1 or max(abs(c * den) for p in fr for c in p[:2]) <= 4096}, {tuple(map(float, k)): v for k, v in first.items()}, inputs


def places(h, first, inputs):
    r = []
    for e in h:
        v = tuple(float(x) for x in e)
        r.append([first.get(v[:2], -1), int(v in inputs)])
    return r


def result(rec, first, inputs, r):
    rec.update(err=r["err"], idx=r["tri"], half=r["half"], hull=places(r["hull"], first, inputs), chull=places(r["chull"], first, inputs), same=r["same"], again=r["again"])
    rec["order"], rec["twin"], _ = certificate(rec["loc"], rec["idx"]) if rec["idx"] and max(rec["idx"]) < len(rec["loc"]) and min(rec["idx"]) >= 0 else ([], [], [])
    if len(rec["twin"]) != len(rec["idx"]):
        rec["twin"] = [0] * len(rec["idx"])


EMPTY = {"err": True, "idx": [], "half": [], "hull": [], "chull": [], "same": True, "again": True, "order": [], "twin": []}


def mk_tri(a, meta, r, st):
    rec, first, inputs = base([tuple(map(float, p)) for p in a["p"]])
    rec.pop("den")
    rec.update(EMPTY)
    if r is not None:
        result(rec, first, inputs, r)
    return rec


def mk_refused(a, wide, r, st):
    rec = mk_tri({"p": []} if wide else a, None, None, st) if wide else mk_tri(a, None, r, st)
    rec["wide"] = wide
    if wide and r is not None:
        rec.update(err=r["err"], same=r["same"], idx=r["tri"])
    return rec


def mk_hull(a, meta, r, st):
    rec, first, inputs = base([tuple(map(float, p)) for p in a["p"]])
    rec.pop("den")
    rec.update(hull=[], same=True)
    if r is not None:
        rec.update(hull=places(r["hull"], first, inputs), same=r["same"])
    return rec


SOUND = {"tri": [0, 2, 1, 0, 3, 2], "half": [5, -1, -1, -1, -1, 0], "hull": [0, 1, 2, 3]}


def mk_valid(a, meta, r, st):
    rec, first, inputs = base([tuple(map(float, p)) for p in a["p"]], [x for c in a["changes"] for x in c["v"]])
    den = rec.pop("den")
    rec.update(e=den.bit_length() - 1, bad=False, again=True, same=True, idx=[], half=[], hullXY=[], roots=[], hroots=[], changed=bool(a["changes"]) or bool(a.get("direct")) and a["direct"] != SOUND)
    if r is not None:
        h = [tuple(Fraction(float(x)) for x in e)[:2] for e in r["hull"]]
        def roots(h):
            return [num(isqrt(int(((h[i][0] - h[(i + 1) % len(h)][0]) ** 2 + (h[i][1] - h[(i + 1) % len(h)][1]) ** 2) * den * den) << 80)) for i in range(len(h))]
        rec.update(bad=r["bad"], again=r["again"], same=r["same"], idx=r["tri"], half=r["half"],
                   hullXY=[[num(int(c * den)) for c in p] for p in h], roots=roots(h),
                   hroots=roots(chain([tuple(Fraction(float(c)) for c in p[:2]) for p in a["p"]])))
    return rec


def chain(ps):
    """the hull, for the certificate of lengths only (judged by the specification)"""
    ps = sorted(set(ps))
    def half(ps):
        st = []
        for p in ps:
            while len(st) > 1 and (st[-1][0] - st[-2][0]) * (p[1] - st[-2][1]) - (st[-1][1] - st[-2][1]) * (p[0] - st[-2][0]) < 0:
                st.pop()
            st.append(p)
        return st
    return half(ps)[:-1] + half(ps[::-1])[:-1]


# ----------------------------------------------------------------- checks
_models = {}


def model_hull(ctx):
    return ctx.model("MC_Hull", "CONSTANTS W = %d H = %d MaxPts = %d Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Steps\nINVARIANT Means\nINVARIANT Flat\nINVARIANT Output" % ctx.pick((3, 3, 9), (4, 4, 8)),
                     "monotone chain = minimal enclosing polygon, for every subset of a grid", timeout=600)


def model_delaunay(ctx):
    cfg = "CONSTANTS W = %d H = %d MinPts = %d MaxPts = %d Emit = TRUE\nSPECIFICATION Spec\nINVARIANT TilesHull\nINVARIANT Sees\nINVARIANT Delaunay\nINVARIANT LocalIsGlobal\nINVARIANT Output\nPROPERTY Ends"
    outs = []
    for d in ctx.pick([(3, 3, 3, 6)], [(3, 3, 3, 9), (4, 4, 5, 6), (5, 4, 3, 4)]):
        outs += ctx.model("MC_Delaunay", cfg % d, "sweep-hull insertion with flips ends in a Delaunay tiling, for every grid set", timeout=600)
    seen = {}
    for o in outs:
        seen[tuple(map(tuple, o["p"]))] = 1
    return [list(k) for k in seen]


def order(rng, ps):
    ps = list(ps)
    rng.shuffle(ps)
    return ps


def tri_cases(ctx, n, big, kinds=None):
    rng = ctx.rng
    sets = [order(rng, p) for p in model_delaunay(ctx)]
    # the same sets elsewhere and sheared, all still exact
    more = []
    for p in sets:
        if rng.random() < 0.3:
            a, b, dx, dy = rng.choice([1, 2, 5]), rng.choice([-1, 0, 1, 2]), rng.randint(-300, 300), rng.randint(-300, 300)
            more.append(order(rng, [(x * a + y * b + dx, y * a + dy) for x, y in p]))
    sets += more
    sets = [scaled(rng, p) for p in sets + [pointset(rng, kinds) for _ in range(n)]]
    sets += [floats(rng) for _ in range(n // 4)]
    sets += [nearly(rng) for _ in range(n // 2)]
    for k in big:
        sets.append(pointset(rng, [lambda r: uniform(r, k, 2048)]))
        sets.append(pointset(rng, [lambda r: uniform(r, k, int(k ** 0.5))]))
    return [("triangulate", pts_args(with_z(rng, p) if rng.random() < 0.2 else p), None) for p in sets]


def D01(ctx):
    conform(ctx, "triangulate2", tri_cases(ctx, ctx.pick(2000, 20000), ctx.pick([150, 300, 1300], [150, 300, 700, 1500])), "Trace_Planar", mk_tri, "triangulations", why="WhyDelaunay")
    ctx.assumptions += ["whole-number coordinates up to 2048 are judged exactly; other coordinates up to the rounding of the in-circle determinant"]


def model_sweep(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS W = %d\n H = %d\n MinPts = %d\n MaxPts = %d\n How = \"%s\"\n Emit = FALSE\nINVARIANT Mutual\nINVARIANT RingOk\nINVARIANT Tiled\nINVARIANT Empty\nINVARIANT Room\nPROPERTY Ends"
    for d in ctx.pick([(3, 3, 3, 6)], [(3, 3, 3, 9), (4, 4, 3, 5), (5, 3, 6, 6)]):
        ctx.model("MC_Sweep", cfg % (d + ("full",)), "the sweep on arrays and a linked hull, started from any node, keeps links, ring and tiling", timeout=600)
    for how in ("norepair", "noback"):
        ok, text = ctx.tlc("MC_Sweep", cfg % ((3, 3, 3, 5) + (how,)))
        if ok or " is violated" not in text:
            raise CheckError("specification MC_Sweep does not tell %s apart:\n%s" % (how, text[-2000:]))
    ctx.parts.append({"spec": "MC_Sweep", "what": "sweeps which leave a part out are told apart", "behaviours": 2})


def D02(ctx):
    conform(ctx, "triangulate2", tri_cases(ctx, ctx.pick(2000, 20000), ctx.pick([150, 300, 1300], [150, 300, 700, 1500])), "Trace_Planar", mk_tri, "half-edges and hull", why="WhyHalf")
    model_sweep(ctx)


def D03(ctx):
    rng = ctx.rng
    cases = []
    for o in model_hull(ctx):
        cases.append(("hull", pts_args(order(rng, o["p"])), None))
    for i in range(ctx.pick(3000, 30000)):
        ps = pointset(rng) if rng.random() < 0.8 else rng.choice([line, few, coincident])(rng)
        if rng.random() < 0.15:
            ps = uniform(rng, rng.choice([5, 20, 60]), 1 << 24)
        elif rng.random() < 0.2:
            ps = nearly(rng)
        if ps and rng.random() < 0.3:
            ps = ps + [rng.choice(ps) for _ in range(rng.randint(1, 6))]
            rng.shuffle(ps)
        if rng.random() < 0.3:
            ps = with_z(rng, ps)
        elif ps and rng.random() < 0.1 and all(float(c).is_integer() for p in ps for c in p):
            f = 2.0 ** rng.choice([-22, -16, -10, -3, -1, 10, 40])
            ps = [(x * f, y * f) for x, y in ps]
        cases.append(("hull", pts_args(ps), None))
    for k in ctx.pick([300, 1500, 5000], [300, 1000, 3000, 20000]):
        cases.append(("hull", pts_args(uniform(rng, k, 2048)), None))
    conform(ctx, "triangulate2", cases, "Trace_Planar", mk_hull, "convex hulls", why="WhyHull")


def line(rng):
    c = rng.choice([3, 50, 1000, 1 << 20])
    n = rng.choice([2, 2, 3, 3, 4, 5, 8, 20])
    dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-3, 7), (3, 1), (5, 7), (10, 3)])
    m = max(1, c // 10)
    a, b = rng.randint(-c, c), rng.randint(-c, c)
    return [(a + t * dx, b + t * dy) for t in (rng.randint(-m, m) for _ in range(n))]


def few(rng):
    return [(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))]


def coincident(rng):
    p = (rng.randint(-99, 99), rng.randint(-99, 99))
    return [p] * rng.choice([1, 2, 3, 4, 5, 9, 30])


def wide(rng):
    """magnitudes far apart, many on or next to the axes through one place"""
    def mag():
        return rng.choice([0, 1, 1, -1, -1]) * 2.0 ** rng.randint(-20, 60) * rng.choice([1, 1, 1.5, rng.uniform(1, 2)])
    n = rng.choice([3, 4, 5, 6, 8, 12])
    ps = [(mag(), mag() if rng.random() < 0.5 else rng.choice([0.0, 1.0, -1.0, 2.0 ** -20])) for _ in range(n)]
    if rng.random() < 0.5:
        ps += [(-p[0], rng.choice([p[1], -p[1], 0.0, 1.0])) for p in ps]
    if rng.random() < 0.5:
        ps += [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0)]
    if rng.random() < 0.3:
        ps = [(p[1], p[0]) for p in ps]
    rng.shuffle(ps)
    return ps


def D04(ctx):
    rng = ctx.rng
    model_hull(ctx)
    cases = [[]]
    for w in (1, 2, 3):       # every short list over a small grid, repetitions included
        pts = [(x, y) for x in range(w) for y in range(ctx.pick(2, 3))]
        lists = [[]]
        for _ in range(ctx.pick(4, 5)):
            lists = [l + [p] for l in lists for p in pts]
            if len(lists) > 1500:
                lists = rng.sample(lists, ctx.pick(700, 1500))
            cases += lists
    for _ in range(ctx.pick(5000, 40000)):
        k = rng.random()
        ps = line(rng) if k < 0.4 else few(rng) if k < 0.5 else coincident(rng) if k < 0.55 else pointset(rng)
        if ps and rng.random() < 0.6:
            ps = ps + [rng.choice(ps) for _ in range(rng.choice([1, 2, 5, 30]))]
            rng.shuffle(ps)
        if rng.random() < 0.3:
            ps = with_z(rng, ps)
        cases.append(scaled(rng, ps))
    for k in ctx.pick([300, 1100], [300, 700, 1100, 3000]):      # many, all or all but one on a line or in one place
        a, b = rng.randint(1, 3), rng.randint(-3, 3)
        on = [(a * x, b * x) for x in (rng.randint(-900, 900) for _ in range(k))]
        cases += [on, order(rng, on + [(a * 7 - b, b * 7 + a)]), [(5, -3)] * k, order(rng, [(5, -3)] * k + [(6, 1), (4, 0)]), uniform(rng, k, 40), uniform(rng, k, 2048)]
    cases = [("triangulate", pts_args(p), False) for p in cases]
    cases += [("triangulate", pts_args(nearly(rng)), False) for _ in range(ctx.pick(600, 4000))]
    # any floats at all: an answer of either kind, but an answer
    cases += [("triangulate", pts_args(wide(rng)), True) for _ in range(ctx.pick(3000, 30000))]
    conform(ctx, "triangulate2", cases, "Trace_Planar", mk_refused, "accepted and refused inputs", why="WhyRefusal")


def D05(ctx):
    rng = ctx.rng
    model_delaunay(ctx)
    ctx.prove("Proof_Moves", "turns and circles under moves, scalings, mirrors and reorderings")
    cases, groups = [], []
    for _ in range(ctx.pick(1200, 10000)):
        ps = pointset(rng, [lambda r: uniform(r, None, 2048), lambda r: uniform(r, None, 300), ring, clusters, uniform])
        if rng.random() < 0.004:
            ps = uniform(rng, rng.choice([130, 300, 700]), 2048)
        n = len(ps)
        g = [(pts_args(ps), list(range(n)), "points")]
        for _ in range(rng.randint(2, 4)):
            ids, q, names = list(range(n)), [tuple(p) + (0,) for p in ps], []
            for kind in rng.sample(["order", "repeats", "z", "shift", "scale"], rng.choice([1, 1, 1, 2, 3])):
                names.append(kind)
                if kind == "order":
                    z = list(zip(ids, q)); rng.shuffle(z)
                    if rng.random() < 0.3:
                        z.sort(key=lambda t: t[1], reverse=rng.random() < 0.5)
                elif kind == "repeats":
                    z = list(zip(ids, q))
                    for _ in range(rng.choice([1, 2, 4, n])):
                        z.insert(rng.randint(0, len(z)), rng.choice(z))
                elif kind == "z":
                    f = rng.choice([1, 100, 1e6])
                    z = [(i, (p[0], p[1], rng.uniform(-f, f))) for i, p in zip(ids, q)]
                elif kind == "shift":
                    m = rng.choice([1, 100, 4096, 1 << 20, 1 << 30, 1 << 36])
                    dx, dy = rng.randint(-m, m), rng.randint(-m, m)
                    if "scale" in names:
                        dx, dy = dx * sc, dy * sc
                    z = [(i, (p[0] + dx, p[1] + dy, p[2])) for i, p in zip(ids, q)]
                else:
                    sc = 2.0 ** rng.choice([-24, -22, -12, -6, -1, 1, 3, 10, 20, 60])
                    z = [(i, (p[0] * sc, p[1] * sc, p[2])) for i, p in zip(ids, q)]
                ids, q = [t[0] for t in z], [t[1] for t in z]
            g.append((pts_args(q), ids, "+".join(names)))
        groups.append((len(cases), len(g)))
        cases += g
    resp = ctx.call("triangulate2", [("triangulate", a) for a, _, _ in cases])
    recs, src = [], {}
    for at, k in groups:
        a, _, _ = cases[at]
        r = resp[at]
        if r is None:
            continue
        if status(r) in ("hang", "crash"):
            r = ctx.call("triangulate2", [("triangulate", a)], to=40000)[0]
        rec = mk_tri(a, None, r.get("r") if status(r) == "ok" else None, status(r))
        rec["alts"] = []
        for j in range(at + 1, at + k):
            _, ids, name = cases[j]
            q = resp[j]
            if status(q) in ("hang", "crash"):
                q = ctx.call("triangulate2", [("triangulate", cases[j][0])], to=40000)[0]
            v = q.get("r") if status(q) == "ok" else {"err": True, "same": True, "again": True, "tri": []}
            ok = all(0 <= i < len(ids) for i in v["tri"])
            rec["alts"].append({"kind": name, "status": status(q) if ok else "an index refers to no point", "err": v["err"], "same": v["same"], "again": v["again"], "idx": [ids[i] for i in v["tri"]] if ok else []})
        rec["status"] = status(r)
        rec["id"] = len(recs) + 1
        recs.append(rec)
        src[rec["id"]] = (at, k)
    rej = ctx.trace("Trace_Planar", recs, "results for changed points", why="WhySame")
    for r in recs[:1]:
        ctx.sample({"input": cases[src[1][0]][0], "alternatives": [c[2] for c in cases[1:src[1][1]]]})
    for i, w in sorted(rej.items())[:25]:
        at, k = src[i]
        ctx.bad.append({"property": ctx.prop, "package": "triangulate2", "op": "triangulate", "cases": [{"args": c[0], "what": c[2]} for c in cases[at:at + k]], "why": w, "responses": resp[at:at + k]})


def D06(ctx):
    rng = ctx.rng
    model_hull(ctx)
    cases = []
    for i in range(ctx.pick(4000, 40000)):
        ps = pointset(rng) if i % 3 else pointset(rng, [lambda r: uniform(r, r.randint(3, 8), r.choice([2, 3, 10]))])
        ch = []
        if rng.random() < 0.75:
            what = rng.choice(["half", "half", "half", "wild", "tri", "droptri", "hull", "drophull", "swaphull"])
            c = {"what": what, "at": rng.randrange(1 << 20), "to": rng.choice([-1, rng.randrange(1 << 20)]), "v": ["0", "0", "0"]}
            if what == "wild":
                c["to"] = rng.choice([-2, -3, -1, 3 * len(ps), 6 * len(ps), 2 ** 30, -2 ** 30, rng.randrange(1 << 20), rng.randrange(4 * len(ps))])
            if what in ("tri", "swaphull"):
                c["to"] = rng.randrange(1 << 20)
            if what == "hull":
                q = rng.choice([rng.choice(ps), (rng.randint(-2100, 2100), rng.randint(-2100, 2100))])
                c["v"] = [s(q[0]), s(q[1]), "0"]
            ch = [c]
            if rng.random() < 0.25:
                at = rng.randrange(1 << 20)
                ch = rng.choice([[{"what": "para", "at": at, "to": 0, "v": ["0"] * 3}, {"what": "match", "at": 0, "to": 0, "v": ["0"] * 3}],
                                 [{"what": "shear", "at": at, "to": rng.randrange(5), "v": ["0"] * 3}],
                                 [c, {"what": "match", "at": 0, "to": 0, "v": ["0"] * 3}],
                                 [c, dict(c, at=at)]])
        if rng.random() < 0.2:      # repeated, at other heights
            ps = with_z(rng, ps + [rng.choice(ps) for _ in range(rng.choice([1, 3, len(ps)]))])
            rng.shuffle(ps)
        e = rng.choice([0, 0, 0, 6, 9])
        if e:
            ps = [tuple(x / 2 ** e for x in p) for p in ps]
            ch = [dict(c, v=[s(float(x) / 2 ** e) for x in c["v"]]) for c in ch]
        cases.append(("validate", dict(pts_args(ps), changes=ch), None))
    # what the specification can turn two triangles into
    cfg = "SPECIFICATION Spec\nINVARIANT Means\nINVARIANT Simple\nINVARIANT Whole\n%sCONSTANTS A = 4\n B = 3\n C = 5\n MaxHull = %d\n Scan = \"%s\"\n Mix = %s\n Emit = %s"
    broken = ctx.model("MC_Validate", cfg % ("INVARIANT Output\nPROPERTY Ends\n", ctx.pick(4, 5), "both", "TRUE", "TRUE"), "validation as a scan = its meaning, for all that two triangles can be turned into", timeout=600)
    rect = [(0, 0), (4, 0), (4, 3), (0, 3)]
    near = [o for o in broken if o["v"] != "links" or rng.random() < 0.1]
    for o in rng.sample(broken, min(len(broken), ctx.pick(1000, 8000))) + rng.sample(near, min(len(near), ctx.pick(2000, 15000))) + [o for o in broken if o["v"] == "sound"]:
        k, dx, dy = rng.choice([1, 1, 3, 0.25, 64]), rng.choice([0, 0, -2, 100]), rng.choice([0, 0, -1.5, 77])
        d = {x: o[x] for x in ("tri", "half", "hull")}
        cases.append(("validate", dict(pts_args([(k * x + dx, k * y + dy) for x, y in rect]), changes=[], direct=d), None))
    conform(ctx, "triangulate2", cases, "Trace_Planar", mk_valid, "validations", why="WhyValid")
    for way in ("smaller", "linked"):
        ok, text = ctx.tlc("MC_Validate", cfg % ("", 3, way, "FALSE", "FALSE"))
        if ok or "Invariant Means is violated" not in text:
            raise CheckError("specification MC_Validate does not tell %s apart:\n%s" % (way, text[-2000:]))
    ctx.parts.append({"spec": "MC_Validate", "what": "scans which look at links one way only are told apart", "behaviours": 2})


# --------------------------------------------------------------------- D07
def mk_measure(a, kind, r, st):
    fr = [tuple(Fraction(float(c)) for c in p[:2]) for p in a["p"]]
    den = max([c.denominator for p in fr for c in p] + [1])
    P = [tuple(int(c * den) for c in p) for p in fr]
    rec = {"kind": kind, "P": [[num(c) for c in p] for p in P], "e": den.bit_length() - 1, "f": 0, "v": [], "in": False, "inf": False, "nan": False, "same": True, "roots": []}
    if r is not None:
        v = [float(x) for x in r["v"]]
        rec["same"] = r["same"]
        if any(x != x or x == -INF for x in v):
            rec["nan"] = True
        elif INF in v:
            rec["inf"] = True
        elif kind == "inCircle":
            rec["in"] = v[0] == 1
        else:
            v = [Fraction(x) for x in v]
            d = max(x.denominator for x in v)
            rec.update(f=d.bit_length() - 1, v=[num(int(x * d)) for x in v])
        if kind == "polygonPerimeter":
            n = len(P)
            rec["roots"] = [num(isqrt(((P[i][0] - P[(i + 1) % n][0]) ** 2 + (P[i][1] - P[(i + 1) % n][1]) ** 2) << 80)) for i in range(n)]
    return rec


def turn(p):
    a, b, c = [tuple(map(Fraction, map(float, q))) for q in p[:3]]
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def ulps(rng, x, k=3):
    for _ in range(rng.choice([0, 0, 1, 1, 2, k])):
        if abs(x) > 1e-40:      # not next to zero
            x = nextafter(x, rng.choice([-INF, INF]))
    return x


def on_circle(rng):
    """four points on or next to one circle, or five lattice points of it"""
    k = rng.random()
    if k < 0.4:
        r = rng.choice([CIRCLE, CIRCLE2])
        ps = [(float(x), float(y)) for x, y in rng.sample(r, 4)]
        d, f = (rng.choice([0, 0, 1000, 2.0 ** 20]), rng.choice([0, 3, -77, 2.0 ** 30])), 2.0 ** rng.choice([0, 0, -30, 7, 60, -90])
        ps = [((x + d[0]) * f, (y + d[1]) * f) for x, y in ps]
    else:
        r, c = 10.0 ** rng.uniform(-3, 3), (rng.choice([0, 1, 1000, rng.uniform(-9, 9)]), rng.choice([0, 0.1, rng.uniform(-99, 99)]))
        w = rng.choice([7, 7, 1, 0.01])
        t0 = rng.uniform(0, 7)
        ps = [(c[0] + r * cos(t), c[1] + r * sin(t)) for t in (t0 + rng.uniform(0, w) for _ in range(4))]
    i = rng.randrange(4)
    ps[i] = (ulps(rng, ps[i][0]), ulps(rng, ps[i][1]))
    return ps


def on_line(rng):
    """three points on or next to one line, and a fourth"""
    if rng.random() < 0.4:
        b, d = (rng.randint(-99, 99), rng.randint(-99, 99)), (rng.randint(-9, 9), rng.randint(-9, 9))
        f = 2.0 ** rng.choice([0, 0, -30, 20, -90, 60])
        ps = [((b[0] + t * d[0]) * f, (b[1] + t * d[1]) * f) for t in (rng.randint(-50, 50) for _ in range(4))]
    else:
        s_, o, f = rng.uniform(-2, 2), rng.choice([0, 0.1, 12, rng.uniform(-999, 999)]), 10.0 ** rng.uniform(-4, 4)
        ps = [(x, o + s_ * x) for x in (rng.uniform(-f, f) if rng.random() < 0.8 else rng.uniform(f / 2, f / 2 + f / 1e6) for _ in range(4))]
    i = rng.randrange(4)
    ps[i] = (ulps(rng, ps[i][0]), ulps(rng, ps[i][1]))
    return ps


def any_four(rng):
    k = rng.random()
    if k < 0.3:
        c = rng.choice([3, 10, 1000, 2 ** 20, 2 ** 40])
        ps = [(float(rng.randint(-c, c)), float(rng.randint(-c, c))) for _ in range(4)]
        f = 2.0 ** rng.choice([0, 0, -20, 30, 77])
        return [(x * f, y * f) for x, y in ps]
    if k < 0.7:
        f = 10.0 ** rng.uniform(-6, 6)
        d = rng.choice([0, 0, 1, 1000, f * 1000, f * 1e6])
        return [(d + rng.uniform(-f, f), rng.uniform(-f, f) - d / 3) for _ in range(4)]
    return [(rng.choice([-1, 1]) * 2.0 ** rng.uniform(-25, 25), rng.choice([-1, 1]) * 2.0 ** rng.uniform(-25, 25)) for _ in range(4)]


def polygon(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 9, 30, 100])
    k = rng.random()
    if k < 0.4:
        c = rng.choice([3, 100, 2048, 2 ** 25])
        ps = [(rng.randint(-c, c), rng.randint(-c, c)) for _ in range(n)]
        if rng.random() < 0.5:
            ps = chain(ps)
            if rng.random() < 0.5:
                ps.reverse()
        return scaled(rng, ps)
    f, d = 10.0 ** rng.uniform(-4, 4), rng.choice([0, 0, 10, 1e6])
    ps = [(d + rng.uniform(-f, f), d - rng.uniform(-f, f)) for _ in range(n)]
    return ps + ps[:rng.choice([0, 0, 1, 2])]


def D07(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Measures", "SPECIFICATION Spec\nCONSTANTS W = %d H = %d MaxSides = %d Emit = TRUE\nINVARIANT TurnMeans\nINVARIANT Equidistant\nINVARIANT InsideMeans\nINVARIANT RadiusMeans\nINVARIANT AreaMeans\nINVARIANT Output" % ctx.pick((3, 3, 4), (4, 3, 4)),
                     "turn, circle, centre, radius and area formulas mean what they should, for all triangles and polygons of a grid", timeout=600)
    polys = [[tuple(q) for q in o["p"]] for o in outs]
    polys = rng.sample(polys, min(len(polys), ctx.pick(2000, 10000)))
    n = ctx.pick(2500, 25000)
    four = [p for p in polys if len(p) == 4]
    four += [rng.choice([on_circle, on_circle, on_line, any_four])(rng) for _ in range(n)]
    cases = []
    for p in four:
        t = turn(p)
        a3 = pts_args(with_z(rng, p[:3]) if rng.random() < 0.1 else p[:3])
        cases += [("area", a3, "area"), ("cross2D", a3, "cross2D"), ("circumcenter", a3, "circumcenter"), ("circumradius", a3, "circumradius")]
        if t != 0:
            q = p if t < 0 else [p[1], p[0], p[2], p[3]]
            cases.append(("inCircle", pts_args(q), "inCircle"))
    for p in polys + [polygon(rng) for _ in range(n // 2)]:
        cases += [(op, pts_args(p), op) for op in ("polygonArea", "polygonPerimeter")]
    conform(ctx, "triangulate2", cases, "Trace_Planar", mk_measure, "measures of points", why="WhyMeasure")
