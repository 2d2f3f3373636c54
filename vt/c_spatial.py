"""B01-B07: the spatial code of meshing, triangulate3 and predicates."""
from fractions import Fraction
from math import isfinite
from core import conform
from c_meshes import num
from c_planar import s


def scaled(rng, *groups):
    """all points in a smaller or larger unit, a power of two, so that the
    arithmetic stays as exact as it was"""
    e = rng.choice([0, 0, 0, -40, -20, -12, -6, 5, 30]) if rng.random() < 0.8 else rng.randint(-60, 60)
    if not e:
        return groups
    return tuple([[c * 2.0 ** e for c in p] for p in g] for g in groups)


def I(names):
    return "".join("\nINVARIANT " + n for n in names.split())


def args(ps, q=(0, 0, 0), i=()):
    return {"p": [[s(c) for c in p] for p in ps], "q": [s(c) for c in q], "i": list(i)}


def exact(*groups):
    """points of all groups as exact numbers over one power of two;
    None where one is not finite. Also the common denominator."""
    fr, den = [], 1
    for g in groups:
        out = []
        for p in g:
            v = [float(c) for c in p]
            if not all(map(isfinite, v)):
                return None, 0
            out.append([Fraction(c) for c in v])
        fr.append(out)
    for g in fr:
        for p in g:
            for c in p:
                den = max(den, c.denominator)
    return [[[num(int(c * den)) for c in p] for p in g] for g in fr], den


NOPTS = {"P": [], "C": [], "Q": [[0], [0], [0]]}


def start(a, r, key=None):
    """P, Q from the request, C from the points of the response"""
    got = r[key] if r is not None and key else []
    e, den = exact(a["p"], [a["q"]], got)
    if e is None:
        return dict(NOPTS, bad=True), 1
    return {"P": e[0], "Q": e[1][0], "C": e[2]}, den


def fail(rec, st):
    if rec.pop("bad", None):
        rec["status"] = "a result is not a number"
    return rec


# -------------------------------------------------------------------- B01
def orient(a, b, c, d):
    u, v, w = ([x - y for x, y in zip(p, d)] for p in (a, b, c))
    return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])


def insphere(a, b, c, d, e):
    rows = []
    for p in (a, b, c, d):
        u = [x - y for x, y in zip(p, e)]
        rows.append(u + [sum(t * t for t in u)])
    def d3(i, j, k):
        (a0, a1, a2), (b0, b1, b2), (c0, c1, c2) = (rows[t][:3] for t in (i, j, k))
        return a0 * (b1 * c2 - b2 * c1) - a1 * (b0 * c2 - b2 * c0) + a2 * (b0 * c1 - b1 * c0)
    det = -rows[0][3] * d3(1, 2, 3) + rows[1][3] * d3(0, 2, 3) - rows[2][3] * d3(0, 1, 3) + rows[3][3] * d3(0, 1, 2)
    o = orient(a, b, c, d)
    return det * o if o else 0


def tetras(fr):
    """Delaunay tetrahedra, grown face by face (a certificate)"""
    n = len(fr)
    def apex(a, b, c, side):
        best = None
        for e in range(n):
            if e in (a, b, c):
                continue
            o = orient(fr[a], fr[b], fr[c], fr[e])
            if o * side > 0 and (best is None or insphere(fr[a], fr[b], fr[c], fr[best], fr[e]) > 0):
                best = e
        return best
    # a first hull face by gift wrapping would do; here: a point and its nearest
    # neighbour span an edge, and some third point a face
    d2 = lambda i, j: sum((x - y) ** 2 for x, y in zip(fr[i], fr[j]))
    a = 0
    b = min(range(1, n), key=lambda j: d2(a, j))
    todo, seen, out = [], set(), set()
    for c in range(n):
        if c in (a, b):
            continue
        for side in (1, -1):
            d = apex(a, b, c, side)
            if d is not None and all(e in (a, b, c, d) or insphere(fr[a], fr[b], fr[c], fr[d], fr[e]) < 0 for e in range(n)):
                todo.append((frozenset((a, b, c)), side, (a, b, c)))
        if todo:
            break
    while todo:
        f, side, (a, b, c) = todo.pop()
        if (f, side, (a, b, c)) in seen:
            continue
        seen.add((f, side, (a, b, c)))
        d = apex(a, b, c, side)
        if d is None:
            continue
        t = frozenset((a, b, c, d))
        if t in out:
            continue
        out.add(t)
        for x in t:
            g = tuple(sorted(t - {x}))
            o = orient(*(fr[i] for i in g), fr[x])
            todo.append((frozenset(g), -1 if o > 0 else 1, g))
    return [sorted(i + 1 for i in t) for t in out]


def mk_bw(a, meta, r, st):
    rec, _ = start(a, None)
    rec.update(idx=[], tets=[], same=True)
    if r is not None:
        rec.update(idx=r["idx"], same=r["same"])
        if len(a["p"]) > 8:
            rec["tets"] = tetras([[Fraction(float(c)) for c in p] for p in a["p"]])
    return rec


def cloud(rng, n):
    """points in general position (with probability one)"""
    k = rng.randrange(9)
    f = rng.choice([1, 1, 10, 1e3, 1e-2])
    u = lambda m=1.0: rng.uniform(-m, m) * f
    if k == 0:
        ps = [[u(), u(), u(0.02)] for _ in range(n)]
    elif k == 1:
        ps = [[u(0.01), u(), u()] for _ in range(n)]
    elif k == 2:      # clusters
        cs = [[u(), u(), u()] for _ in range(3)]
        ps = [[c + u(0.03) for c in rng.choice(cs)] for _ in range(n)]
    elif k == 3:      # nearly on a sphere
        ps = []
        for _ in range(n):
            v = [rng.gauss(0, 1) for _ in range(3)]
            m = sum(x * x for x in v) ** 0.5 / f
            ps.append([x / m * (1 + rng.uniform(-0.01, 0.01)) for x in v])
    elif k == 4:      # nearly a lattice
        ps = [[(rng.randint(-2, 2) + rng.uniform(-0.02, 0.02)) * f for _ in range(3)] for _ in range(n)]
    elif k == 5:
        ps = [[rng.randint(-90000, 90000) for _ in range(3)] for _ in range(n)]
    else:
        ps = [[u(), u(), u()] for _ in range(n)]
    if rng.random() < 0.3:
        c = [rng.uniform(-5, 5) * f for _ in range(3)]
        ps = [[x + y for x, y in zip(p, c)] for p in ps]
    if rng.random() < 0.2:
        ps.sort()
    return ps


def B01(ctx):
    rng = ctx.rng
    cases = []
    for nc, lo, hi in ctx.pick([(7, 4, 6)], [(8, 4, 6), (9, 5, 6)]):
        for o in ctx.model("MC_BowyerWatson", "CONSTANTS NC = %d MinPts = %d MaxPts = %d Emit = TRUE\nSPECIFICATION Spec" % (nc, lo, hi) + I("Solid Fills SharedOnce AllUsed Empty Sound Complete Determined Output"),
                           "incremental insertion fills the big tetrahedron with empty spheres, in every order", timeout=700):
            if rng.random() < ctx.pick(0.4, 0.5):
                f = rng.choice([1, 1, 0.37, 12.5])
                cases.append([[(c + rng.uniform(-0.01, 0.01)) * f for c in p] for p in o["p"]])
    for _ in range(ctx.pick(1500, 12000)):
        cases.append(cloud(rng, rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8])))
    for n in ctx.pick([12] * 10 + [15] * 8 + [20] * 10 + [25] * 6 + [30] * 4 + [40, 66], [10] * 40 + [15] * 40 + [20] * 30 + [30] * 20 + [45] * 6 + [60] * 3 + [100]):
        cases.append(cloud(rng, n))
    cases.sort(key=lambda p: -len(p))
    conform(ctx, "meshing", [("bowyerWatson", args(p), None) for p in cases], "Trace_Space", mk_bw, "listed faces", why="WhyFaces", to=20000)
    ctx.assumptions += ["general position holds for random coordinates with probability one"]


# -------------------------------------------------------------- B02, B07
def anylist(rng, big=10 ** 6):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 20]) if rng.random() < 0.985 else rng.choice([64, 100, 130, 260, 260, 1030])
    m = rng.choice([1, 3, 10, 1000, big])
    k = rng.random()
    c = (lambda: rng.randint(-m, m)) if k < 0.6 else (lambda: rng.uniform(-m, m))
    ps = [[c(), c(), c()] for _ in range(n)]
    t = rng.random()
    if t < 0.1:
        ps = [list(ps[0]) for _ in ps]
    elif t < 0.25:      # on a line along an axis or through a point
        ax = rng.randrange(3)
        ps = [[p[i] if i == ax else ps[0][i] for i in range(3)] for p in ps]
    elif t < 0.4:
        ax = rng.randrange(3)
        v = c()
        ps = [[v if i == ax else p[i] for i in range(3)] for p in ps]
    elif t < 0.5:      # far away from the origin, one sign
        o = [rng.choice([-1, 1]) * rng.uniform(0, big) for _ in range(3)]
        ps = [[max(-big, min(big, a + b)) for a, b in zip(p, o)] for p in ps]
    if rng.random() < 0.15:
        sg = rng.choice([-1, 1])
        ps = [[sg * abs(x) - sg * 0 for x in p] for p in ps]
    ps = [[x + 0.0 if x else 0 for x in p] for p in ps]
    if rng.random() < 0.3:
        ps += [list(rng.choice(ps)) for _ in range(rng.randint(1, 3))]
    rng.shuffle(ps)
    return ps


def mk_enclose(a, meta, r, st):
    got = None if r is None else {"pts": r["pts"][:4]}
    rec, _ = start(a, got, "pts")
    rec.update(same=True, kept=True, faced=True)
    if r is not None:
        rec["same"] = r["same"]
        if meta == "meshing":
            rec["kept"] = [[float(x) for x in p] for p in r["pts"][4:]] == [[float(x) for x in p] for p in a["p"]] and sorted(r["tet"]) == [0, 1, 2, 3]
        else:
            t = [frozenset(r["idx"][i:i + 3]) for i in range(0, len(r["idx"]), 3)]
            rec["faced"] = len(r["idx"]) == 12 and set(t) == {frozenset(x) for x in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))} and len(r["pts"]) == 4
    return fail(rec, st)


def mk_points(a, meta, r, st):
    rec, den = start(a, r, "r")
    rec.update(same=True if r is None else r["same"], exact=den == 1, slack=num(0))
    if r is not None and den != 1:
        rec["slack"] = num(int(den * sum(abs(Fraction(float(x))) for p in a["p"] for x in p) / 2 ** 50) + 1)
    if r is None:
        rec["C"] = []
    return fail(rec, st)


def lists(ctx, spec, cfg, what):
    return [o for o in ctx.model(spec, cfg, what)]


def B02(ctx):
    rng = ctx.rng
    outs = lists(ctx, "MC_Enclose", "CONSTANTS N = 2 MaxPts = %d Margin = 10 Edge = 40 Emit = TRUE\nINIT Init\nNEXT Next" % ctx.pick(2, 3) + I("Extents Enclosed1 Enclosed2 Output"),
                 "corners put around gathered extents contain every point strictly")
    ls = [o["p"] for o in outs] + [anylist(rng) for _ in range(ctx.pick(2500, 25000))]
    for key in ("meshing", "triangulate3"):
        conform(ctx, key, [("englobe", args(p), key) for p in ls], "Trace_Space", mk_enclose, "enclosing tetrahedra of " + key, why="WhyEnclosed")
        conform(ctx, key, [("extents", args(p), key) for p in ls], "Trace_Space", mk_points, "extents of " + key, why="WhyExtents")


def B07(ctx):
    rng = ctx.rng
    outs = lists(ctx, "MC_Scan", "CONSTANTS N = %d MaxPts = %d Emit = TRUE\nINIT Init\nNEXT Next" % ctx.pick((1, 4), (2, 4)) + I("Typed Least Output"),
                 "a scan that keeps the best point so far ends with a nearest one")
    ctx.prove("Proof_Scan", "the scan ends with a point of least distance")
    rng.shuffle(outs)
    near = [([list(p) + [0] for p in o["p"]], list(o["q"]) + [0]) for o in outs[:ctx.pick(1500, 8000)]]
    for i in range(ctx.pick(1500, 15000)):
        big = rng.choice([10 ** 6, 3])
        ps = anylist(rng, big)
        q = rng.choice([list(rng.choice(ps)), [rng.randint(-9, 9) for _ in range(3)], [rng.uniform(-big, big) for _ in range(3)]])
        near.append((ps, q))
    conform(ctx, "meshing", [("nearest", args(p, q), None) for p, q in near], "Trace_Space", mk_points, "nearest points", why="WhyNearest")
    cen, cases = [], []
    for _ in range(ctx.pick(800, 8000)):
        m = rng.choice([1, 4, 100, 10 ** 6])
        cen.append([[rng.randint(-m, m) for _ in range(3)] for _ in range(4)] if rng.random() < 0.6 else [[rng.uniform(-m, m) for _ in range(3)] for _ in range(4)])
    for _ in range(ctx.pick(500, 5000)):
        m = rng.choice([2, 10, 1000])
        ps = [[rng.randint(-m, m) for _ in range(3)] for _ in range(rng.randint(4, 12) if rng.random() < 0.97 else rng.choice([70, 300]))]
        t = [rng.randrange(len(ps)) for _ in range(4)]
        cases.append(("nearestToCentroid", args(ps, [sum(ps[i][k] for i in t) / 4 for k in range(3)], t), None))
    conform(ctx, "meshing", cases, "Trace_Space", mk_points, "points nearest to a centroid", why="WhyNearest")
    ls = [anylist(rng) for _ in range(ctx.pick(800, 8000))]
    for _ in range(ctx.pick(200, 2000)):      # far beyond a million
        f, o = 10.0 ** rng.choice([9, 20, 40, 60]), rng.choice([-1, 0, 1, 2])
        ls.append([[f * (rng.uniform(-1, 1) + o) for _ in range(3)] for _ in range(rng.choice([1, 2, 5, 9]))])
    for key in ("meshing", "triangulate3"):
        conform(ctx, key, [("centroid", args(p), None) for p in cen], "Trace_Space", mk_points, "centroids of " + key, why="WhyCentroid")
        conform(ctx, key, [("extents", args(p), None) for p in ls], "Trace_Space", mk_points, "extents of " + key, why="WhyExtents")


# -------------------------------------------------------------------- B03
def mk_sign(a, meta, r, st):
    rec, _ = start(a, None)
    rec.update(kind=meta, r=9 if r is None else r["r"])
    return rec


SPHERE = [(x, y, z) for x in range(-9, 10) for y in range(-9, 10) for z in range(-9, 10) if x * x + y * y + z * z == 81]


def fives(rng):
    """five points with whole coordinates up to a few hundred"""
    k = rng.random()
    if k < 0.35:      # on one sphere, or one off it
        f, o = rng.choice([1, 2, 5]), [rng.randint(-100, 100) for _ in range(3)]
        ps = [[f * c + d for c, d in zip(p, o)] for p in rng.sample(SPHERE, 5)]
        if rng.random() < 0.6:
            ps[rng.randrange(5)][rng.randrange(3)] += rng.choice([-1, 1, 2])
    else:
        m = rng.choice([1, 2, 5, 20, 200])
        ps = [[rng.randint(-m, m) for _ in range(3)] for _ in range(5)]
        if k < 0.45:
            ps[4] = list(ps[rng.randrange(4)])
        elif k < 0.55:
            ps[4] = [sum(p[i] for p in ps[:4]) // 4 for i in range(3)]
    return ps


def dominated(rng):
    """one product outweighs the others, and all but vanishes: two points above
    each other, two on a line with the place below them, up to rounding"""
    e = [rng.choice([0.1, 0.7, 12.3, 1000.1, rng.uniform(-9, 9)]) for _ in range(3)]
    far = lambda: rng.choice([-1, 1]) * rng.uniform(0.5, 1) * 10.0 ** rng.choice([0, 0, 1, 3, 4])
    t, u, v = rng.choice([2, 3, -1, 0.3, rng.uniform(-4, 4)]), far(), far()
    h = rng.choice([0, 0, 1e-16, 1e-15, 1e-13])
    ps = [[0, 0, far()], [0, 0, far()], [u, v, rng.choice([0, 0, far() * 1e-3])], [t * u * (1 + rng.uniform(-h, h)), t * v, rng.choice([0, 0, far() * 1e-3])]]
    rng.shuffle(ps)
    ax = rng.sample(range(3), 3)
    return [[p[i] + c for i, c in zip(ax, e)] for p in ps] + [e]


def B03(ctx):
    rng = ctx.rng
    outs = geo3(ctx)
    ints = [o["v"] + [o["p"]] for o in outs] + [fives(rng) for _ in range(ctx.pick(4000, 40000))]
    for p in list(ints[:ctx.pick(1000, 5000)]):
        q = list(p)
        rng.shuffle(q)
        ints.append(q)
    ints = [scaled(rng, p)[0] for p in ints]
    for op in ("fast", "orient", "bounded"):
        conform(ctx, "predicates", [(op, args(p[:4], p[4]), op) for p in ints], "Trace_Space", mk_sign, op + " on whole numbers", why="WhySign")
    fl = []
    for _ in range(ctx.pick(3000, 30000)):
        f = rng.choice([1, 1, 1e3, 1e-3, 1e6, 1e-6])
        k = rng.random()
        if k < 0.4:
            ps = [[rng.uniform(-f, f) for _ in range(3)] for _ in range(5)]
        elif k < 0.8:      # close to one sphere, by rounding or a little more
            o = [rng.choice([0, rng.uniform(-f, f), 100 * f]) for _ in range(3)]
            h = rng.choice([0, 0, 1e-15, 1e-12, 1e-9])
            ps = []
            for _ in range(5):
                v = [rng.gauss(0, 1) for _ in range(3)]
                m = sum(x * x for x in v) ** 0.5
                ps.append([x / m * f * (1 + rng.uniform(-h, h)) + y for x, y in zip(v, o)])
        else:      # nearly flat
            ps = [[rng.uniform(-f, f), rng.uniform(-f, f), rng.uniform(-f, f) * 1e-9] for _ in range(5)]
        fl.append(ps)
    fl += [dominated(rng) for _ in range(ctx.pick(10000, 60000))]
    conform(ctx, "predicates", [("bounded", args(p[:4], p[4]), "bounded") for p in fl], "Trace_Space", mk_sign, "bounded test on any numbers", why="WhySign")


def geo3(ctx):
    return ctx.model("MC_Geo3", "CONSTANTS N = %d AnyOrder = %s Emit = TRUE\nINIT Init\nNEXT Next" % ctx.pick((2, "FALSE"), (2, "TRUE")) + I("Agree Strict Sphere Corner Output"),
                     "orientation tests = volumes, sphere determinant = distance to the centre, on a lattice", timeout=600)


# -------------------------------------------------------------------- B04
def mk_inside(a, meta, r, st):
    rec, _ = start(a, None)
    rec.update(kind=meta, r=False if r is None else r["r"])
    return rec


def tetra_point(rng, m):
    while True:
        v = [[rng.randint(-m, m) for _ in range(3)] for _ in range(4)]
        if orient(*v) != 0:
            break
    k = rng.random()
    w = [rng.randint(0, 4) for _ in range(4)]
    if k < 0.5 and sum(w):      # a point made of the corners: corner, edge, face or inside
        if k < 0.25:
            w[rng.randrange(4)] = 0
        if not sum(w):
            w[0] = 1
        v = [[c * sum(w) for c in p] for p in v]
        q = [sum(x * p[i] for x, p in zip(w, v)) // sum(w) for i in range(3)]
        if k < 0.15 or k > 0.4:
            q[rng.randrange(3)] += rng.choice([-1, 1])
    elif k < 0.6:      # beyond a face, or in the plane of one but outside of it
        i = rng.randrange(4)
        w = [rng.randint(-3, 3) for _ in range(3)]
        o = [p for j, p in enumerate(v) if j != i]
        q = [o[0][t] + w[0] * (o[1][t] - o[0][t]) + w[1] * (o[2][t] - o[0][t]) for t in range(3)]
    else:
        q = [rng.randint(-m, m) for _ in range(3)]
    return v, q


def B04(ctx):
    rng = ctx.rng
    outs = geo3(ctx)
    ctx.prove("Proof_Space", "volumes under reorderings, scalings, mirrors and moves; four parts make up the whole")
    tp = [(o["v"], o["p"]) for o in outs]
    for _ in range(ctx.pick(4000, 40000)):
        tp.append(tetra_point(rng, rng.choice([1, 2, 5, 30, 1000])))
    for i in range(0, len(tp)):
        if rng.random() < 0.5:
            v, q = tp[i]
            v = list(v)
            rng.shuffle(v)
            tp[i] = (v, q)
    side = [(v, q) for v, q in tp]
    for _ in range(ctx.pick(1000, 10000)):      # flat ones too
        m = rng.choice([1, 2, 20])
        side.append(([[rng.randint(-m, m) for _ in range(3)] for _ in range(4)], [rng.randint(-m, m) for _ in range(3)]))
    tp, side = ([(z[0], z[1][0]) for z in (scaled(rng, v, [q]) for v, q in g)] for g in (tp, side))
    for key in ("meshing", "triangulate3"):
        conform(ctx, key, [("inTetra", args(v, q), "inTetra") for v, q in tp], "Trace_Space", mk_inside, "containment in " + key, why="WhyInside")
        conform(ctx, key, [("sameSide", args(v, q), "sameSide") for v, q in side], "Trace_Space", mk_inside, "same side in " + key, why="WhyInside")


# -------------------------------------------------------------------- B05
def mk_simplex(a, meta, r, st):
    rec, _ = start(a, r, "pts")
    rec.update(same=True if r is None else r["same"])
    return fail(rec, st)


def mk_dist(a, meta, r, st):
    rec, den = start(a, None if r is None else {"r": [[r["r"][0]] * 3, [r["r"][1]] * 3]}, "r")
    rec["e"] = den.bit_length() - 1
    rec["C"] = [c[0] for c in rec["C"]]
    return fail(rec, st)


def solid(ps):
    ps = [list(p) for p in ps]
    if len({p[0] for p in ps}) < 2:
        return False
    a = ps[0]
    b = next((p for p in ps if p != a), None)
    if b is None:
        return False
    def cr(p):
        u, v = [x - y for x, y in zip(b, a)], [x - y for x, y in zip(p, a)]
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    c = next((p for p in ps if any(cr(p))), None)
    return c is not None and any(orient(a, b, c, p) for p in ps)


def B05(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Simplex", "CONSTANTS NX = %d NY = %d NZ = %d MinPts = 2 MaxPts = %d Emit = TRUE\nSPECIFICATION Spec" % ctx.pick((1, 1, 2, 5), (2, 1, 2, 5)) + I("Solid Apart Bent Output"),
                     "extreme points taken one after another are not flat unless all are", timeout=700)
    ls = []
    for o in outs:
        if not o["flat"]:
            p = list(o["p"])
            rng.shuffle(p)
            ls.append(p)
    n = 0
    while n < ctx.pick(3000, 30000):
        m = rng.choice([1, 2, 5, 50, 1000])
        ps = [[rng.randint(-m, m) for _ in range(3)] for _ in range(rng.choice([4, 4, 5, 6, 8, 15, 40]) if rng.random() < 0.99 else rng.choice([100, 300, 300, 1100]))]
        k = rng.random()
        if k < 0.15:      # all on one side of the origin
            ps = [[abs(c) + 1 for c in p] for p in ps]
        elif k < 0.3:
            ps = [[-abs(c) - 1 for c in p] for p in ps]
        elif k < 0.5:      # all but one in a plane
            ax = rng.randrange(3)
            v = rng.randint(-m, m)
            for p in ps[1:]:
                p[ax] = v
            rng.shuffle(ps)
        elif k < 0.6:
            ps += [list(rng.choice(ps)) for _ in range(3)]
        if solid(ps):
            ls.append(ps)
            n += 1
    ls = [scaled(rng, p)[0] for p in ls]
    conform(ctx, "triangulate3", [("simplex", args(p), None) for p in ls], "Trace_Space", mk_simplex, "initial simplices", why="WhySimplex")
    d = [[[rng.randint(-m, m) for _ in range(3)] for _ in range(4)] for m in (1, 3, 20, 1000) for _ in range(ctx.pick(200, 2000))]
    d = [scaled(rng, p)[0] for p in d]
    conform(ctx, "triangulate3", [("distances", args(p), None) for p in d], "Trace_Space", mk_dist, "distance measures", why="WhyDistances")


# -------------------------------------------------------------------- B06
def mk_split(a, meta, r, st):
    rec = {"idx": [] if r is None else r["idx"], "kept": True, "given": a["i"]}
    if r is not None and meta == "flip":
        rec["kept"] = [[float(x) for x in p] for p in r["pts"]] == [[float(x) for x in p] for p in a["p"] + [a["q"]]]
    return rec


def B06(ctx):
    rng = ctx.rng
    ctx.model("MC_Split", "CONSTANT Emit = TRUE\nINIT Init\nNEXT Next" + I("End Balanced Output"), "four tetrahedra laid down in any order list each face once or twice per facing")
    cases = []
    for _ in range(ctx.pick(300, 3000)):
        m = rng.choice([1, 10, 1000])
        ps = [[rng.uniform(-m, m) if rng.random() < 0.5 else rng.randint(-m, m) for _ in range(3)] for _ in range(4)]
        if rng.random() < 0.5:
            w = [rng.random() for _ in range(4)]
            q = [sum(x * p[i] for x, p in zip(w, ps)) / sum(w) for i in range(3)]
        else:
            q = [rng.uniform(-2 * m, 2 * m) for _ in range(3)]
        i = rng.choice([[], [0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1], [0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2], [0, 1, 2] * rng.randint(1, 20)])
        cases.append(("flip14", args(ps, q, i), "flip"))
    conform(ctx, "meshing", cases, "Trace_Space", mk_split, "insertions into a tetrahedron", why="WhySplit")
    cases = [("reverse", args([], i=[rng.choice([0, 1, 2, 3, 9, 2 ** 32 - 1 if 0 else 2 ** 31 - 1]) for _ in range(n)]), "reverse") for n in list(range(0, 12)) * ctx.pick(8, 80) + [100, 1000, 4096, 4099, 9000]]
    conform(ctx, "meshing", cases, "Trace_Space", mk_split, "reverse duplication", why="WhyReverse")
