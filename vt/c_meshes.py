"""M01-M05: tessellated shapes."""
from fractions import Fraction
from collections import deque
from core import conform


def num(x):
    """exact integer in the notation of spec/BigNum.tla"""
    if x == 0:
        return [0]
    r, m = [1 if x > 0 else -1], abs(x)
    while m:
        r.append(m & 32767)
        m >>= 15
    return r


def centre(rng, r):
    k = rng.random()
    if k < 0.2:
        return [0.0, 0.0, 0.0]
    if k < 0.35:      # on an axis
        c = [0.0, 0.0, 0.0]
        c[rng.randrange(3)] = rng.choice([-1, 1]) * r * rng.choice([1, 0.5, 3.25, 100])
        return c
    s = r * rng.choice([0.1, 1, 10, 1000, 4000])
    return [rng.uniform(-s, s) for _ in range(3)]


def radius(rng):
    return rng.choice([1.0, 2.0, 0.5, 3.0, 10.0, rng.uniform(0.01, 100), 10 ** rng.uniform(-12, 12), 1e-9, 3e9, 1e-3, 123456.789])


def shape_case(rng, kind, n=None, m=None, small=False, fat=False):
    """one tessellation: (op, args, kind); fat: a torus may cross its own axis"""
    r = radius(rng)
    c = centre(rng, r)
    n = n or rng.choice([3, 4, 5, 6, 7, 8, 9, 12, 16, 25] if small else [3, 4, 5, 7, 8, 13, 16, 31, 32, 50, 64])
    if kind == "circle":
        R, unit, m = [r, 0], [r, r, r], 0
    elif kind == "ellipse":
        b = r * rng.choice([1, 0.5, 2, 0.3, 3, rng.uniform(0.1, 10), 10 ** rng.uniform(-6, 6)])
        R, unit, m = [r, b], [r, b, min(r, b)], 0
        c = centre(rng, min(r, b))
    elif kind == "sphere":
        R, unit = [r, 0], [r, r, r]
        m = m or rng.choice([2, 3, 4, 5, 6, 8, 11] if small else [2, 3, 4, 7, 9, 16, 25, 30])
    else:
        f = rng.choice([1.25, 1.5, 2, 3, 4, 8, 17.3, 40] if not fat or rng.random() < 0.6 else [1, 0.875, 0.5, 0.3125])
        R, unit = [r * f, r], [r, r, r]
        m = m or rng.choice([3, 4, 5, 6, 8, 11] if small else [3, 4, 7, 9, 16, 25, 30])
    return kind, {"c": c, "r": R, "n": n, "m": m, "unit": unit}


def fl(a):
    return dict(a, c=[repr(float(x)) for x in a["c"]], r=[repr(float(x)) for x in a["r"]], unit=[repr(float(x)) for x in a["unit"]])


def certificate(loc, idx):
    """order, twin, up of spec/Mesh.tla: sorted directed edges, reverse
    edges, and a breadth-first tree over the locations"""
    if not loc:
        return [], [], []
    nl, n = max(loc) + 1, len(idx)
    if n % 3 or not n or max(idx) >= len(loc):
        return [], [], []
    ends, out = {}, [[] for _ in range(nl)]
    order, twin = [], [0] * n
    for k in range(0, n, 3):
        a, b, c = (loc[x] for x in idx[k:k + 3])
        if a != b and b != c and c != a:
            for h, (u, v) in ((k + 1, (a, b)), (k + 2, (b, c)), (k + 3, (c, a))):
                ends.setdefault((u, v), h)
                out[u].append((v, h))
                order.append(((u, v), h))
    order.sort()
    for (u, v), h in order:
        twin[h - 1] = ends.get((v, u), 0)
    up = [[0, -1] for _ in range(nl)]
    root = next((i for i in range(nl) if out[i]), 0)
    up[root] = [0, 0]
    q = deque([root])
    rev = [[] for _ in range(nl)]      # edges towards a location
    for u in range(nl):
        for v, h in out[u]:
            rev[v].append((u, h))
    while q:
        x = q.popleft()
        for y, h in rev[x]:
            if up[y][1] < 0:
                up[y] = [h, up[x][1] + 1]
                q.append(y)
    return [h for _, h in order], twin, up


DEFAULTS = {"Circle": (100, 0), "Ellipse": (100, 0), "Sphere": (300, 300), "Torus": (100, 100)}


def mk_mesh(a, meta, r, st):
    kind = meta.lower()
    rec = {"kind": kind, "n": a["n"], "m": a["m"], "nv": 0, "idx": [], "loc": [], "P": [], "normals": [], "tex": [], "order": [], "twin": [], "up": [], "R": [0], "rk": 0}
    if kind == "torus":
        R, t = (float(x) for x in a["r"])
        q = Fraction(R) / Fraction(t) * 2 ** 40
        rec["R"] = num(round(q))
        rec["rk"] = (int(R / t) + 2).bit_length()
    if r is None:
        return rec
    rec["nv"] = r["nv"]
    for k in ("idx", "loc", "P", "normals", "tex"):
        if k in r:
            rec[k] = r[k]
    if a["want"] == "surface":
        rec["order"], rec["twin"], rec["up"] = certificate(rec["loc"], rec["idx"])
    if meta[0].isupper():      # the resolution is the constructor's choice
        n, m = DEFAULTS[meta]
        if kind in ("sphere", "torus") and (n + 1) * (m + 1) != r["nv"]:
            n = r["ring"] - 1
            m = r["nv"] // (n + 1) - 1 if n >= 0 else 0
        rec["n"], rec["m"] = (n, m) if kind in ("sphere", "torus") else (0, 0)
    return rec


# resolutions beyond the counters of one and two bytes
WIDE = {"circle": [(300, 0), (70000, 0)], "ellipse": [(257, 0), (66000, 0)],
        "sphere": [(300, 4), (5, 300), (3, 1100), (2300, 3)], "torus": [(300, 5), (4, 300), (400, 170), (2100, 3), (3, 1100)]}


def run(ctx, why, want, kinds, exported, what, count):
    fat = want in ("index", "position")
    outs = ctx.model("MC_MeshGen", "CONSTANTS MaxN = %d MaxM = %d Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Sound\nINVARIANT NoOverlap\nINVARIANT InTheEnd\nINVARIANT Laid\nINVARIANT Emitted" % ctx.pick((7, 6), (12, 10)),
                     "triangle layout machine at all small resolutions: sound, closed, fans complete")
    if why == "WhySurface":
        ctx.prove("Proof_Rings", "tori and spheres are closed, every edge in one triangle each way")
    rng = ctx.rng
    cases = []
    for o in outs:      # every resolution of the model, replayed
        for k in kinds:
            if {"circle": "fan", "ellipse": "fan"}.get(k, k) == o["kind"]:
                op, a = shape_case(rng, k, o["n"], o["m"], fat=fat)
                cases.append((op, dict(fl(a), want=want), k))
    for k in kinds:
        for _ in range(count):
            op, a = shape_case(rng, k, small=rng.random() < 0.5, fat=fat)
            cases.append((op, dict(fl(a), want=want), k))
        for n, m in WIDE[k]:
            op, a = shape_case(rng, k, n, m, fat=fat)
            cases.append((op, dict(fl(a), want=want), k))
    cases.sort(key=lambda c: -c[1]["n"] * (c[1]["m"] or 1))
    conform(ctx, "shape", cases, "Trace_Mesh", mk_mesh, what, why=why)
    cases = []
    for k in exported:
        for _ in range(ctx.pick(1, 3)):
            _, a = shape_case(rng, k.lower())
            cases.append((k, dict(fl(a), want=want, n=0, m=0), k))
    conform(ctx, "shape", cases, "Trace_Mesh", mk_mesh, what + ", exported constructors", why=why, to=60000)
    ctx.assumptions += ["coincident vertices are identified by the driver within 1e-9 of the smallest radius plus rounding",
                        "coordinates are compared after scaling by the radius, to about nine digits"]


ALL = ["circle", "ellipse", "sphere", "torus"]
EXP = ["Circle", "Ellipse", "Torus", "Sphere"]


def M01(ctx):
    run(ctx, "WhyIndex", "index", ALL, EXP, "index lists", ctx.pick(40, 400))


def M02(ctx):
    run(ctx, "WhyPlace", "position", ALL, EXP, "vertex positions", ctx.pick(25, 250))


def M03(ctx):
    run(ctx, "WhySurface", "surface", ["sphere", "torus"], ["Torus", "Sphere"], "closed outward surfaces", ctx.pick(25, 250))


def M04(ctx):
    run(ctx, "WhyFan", "surface", ["circle", "ellipse"], ["Circle", "Ellipse"], "two-sided fans", ctx.pick(150, 1500))


def M05(ctx):
    run(ctx, "WhyNormal", "normal", ["sphere", "torus"], ["Torus", "Sphere"], "normals and texture coordinates", ctx.pick(25, 250))
