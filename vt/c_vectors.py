"""R01-R03: the vector package r3."""
from fractions import Fraction
from math import isfinite, sqrt
from core import conform
from c_meshes import num
from c_planar import s
from c_spatial import I

INPLACE = ["abs", "scale", "scale2", "add", "sub"]
TOVEC = ["absOf", "scaled", "addOf", "subOf", "cross", "create", "interpolateAt", "interpolate"]
TONUM = ["dot", "norm2", "squaredMagnitude", "squaredDistance", "det2"]
LENGTHS = ["norm", "magnitude", "distance", "isUnit", "normalizeOf", "normalize"]


def scaled(fr, e):
    return num(int(fr * (1 << e)))


def bits(fr):
    return fr.denominator.bit_length() - 1


def mk_history(a, meta, r, st):
    rec = {"e": 0, "start": [], "steps": []}
    if r is None:
        return rec
    zero = [Fraction(0)] * 3
    vals, steps = [[Fraction(float(c)) for c in p] for p in a["regs"]] + [zero], []
    cur = vals
    for q, t in zip(a["steps"], r):
        if t is None:
            continue
        fl = [float(c) for p in t["regs"] for c in p] + [float(c) for c in t["res"]]
        if not all(map(isfinite, fl)):
            steps.append((q, cur, [], t["yes"], False))
            break
        regs = [[Fraction(float(c)) for c in p] for p in t["regs"]]
        res = [Fraction(float(c)) for c in t["res"]]
        steps.append((q, regs, res, t["yes"], True))
        cur = regs
    e = max([bits(c) for p in vals for c in p] + [0] + [max([bits(c) for p in g for c in p] + [bits(c) for c in x] + [bits(Fraction(float(q["f"]))), bits(Fraction(float(q["g"])))]) for q, g, x, _, _ in steps])
    W = lambda p: [scaled(c, e) for c in p]
    rec.update(e=e, start=[W(p) for p in vals],
               steps=[{"op": q["op"], "i": q["i"], "j": q["j"], "dst": q["dst"], "f": scaled(Fraction(float(q["f"])), e), "g": scaled(Fraction(float(q["g"])), e),
                       "regs": [W(p) for p in g], "res": W(x), "yes": y, "finite": ok} for q, g, x, y, ok in steps])
    return rec


def step(op, i=1, j=1, f=1, g=1, dst=0):
    return {"op": op, "i": i, "j": j, "f": s(f), "g": s(g), "dst": dst}


def vec(rng):
    k = rng.random()
    if k < 0.1:
        return [0, 0, 0]
    if k < 0.2:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1, -1, 5, rng.uniform(-9, 9)])
        return v
    if k < 0.5:
        m = rng.choice([1, 3, 10, 1000, 10 ** 6])
        return [rng.randint(-m, m) for _ in range(3)]
    f = 10.0 ** rng.choice([0, 0, 0, 1, 3, -3, 6, -6, 12, -12])
    v = [rng.uniform(-f, f) for _ in range(3)]
    if rng.random() < 0.2:
        v[rng.randrange(3)] *= 1e-9
    if rng.random() < 0.2:
        v[rng.randrange(3)] = rng.choice([0.0, -0.0])
    return v


def factor(rng):
    return rng.choice([0, 1, -1, 2, 0.5, -3, rng.uniform(-2, 2), rng.random(), rng.uniform(-1e3, 1e3), 0.1])


def history(rng, ops, length):
    n = rng.choice([1, 2, 2, 3, 4])
    regs = [vec(rng) for _ in range(n)]
    big = max([abs(c) for v in regs for c in v] + [1.0])
    steps, sure = [], 0
    for _ in range(length):
        op = rng.choice(ops)
        i, j = rng.randint(1, n), rng.randint(1, n)
        if rng.random() < 0.2:
            j = i
        dst = 0
        if op in TOVEC + ["normalizeOf"]:
            dst = rng.choice([0, i, j, rng.randint(1, n)])
            if rng.random() < 0.1:
                i = n + 1      # the package's zero vector
        if rng.random() < 0.1:
            j = n + 1
        f, g = factor(rng), factor(rng)
        # keep magnitudes moderate
        grow = {"cross": 2 * big * big, "scale": abs(f) * big, "scaled": abs(f) * big, "scale2": abs(f * g) * big}.get(op, big * (1 + 2 * abs(f)) * 2)
        if (op in INPLACE or dst) and grow > 1e40:
            continue
        if op in INPLACE or dst:
            big = max(big, grow)
        steps.append(step(op, i, j, f, g, dst))
        if rng.random() < 0.06:      # start afresh from small values
            big = big
    return {"regs": [[s(c) for c in v] for v in regs], "steps": steps}


def extreme(rng):
    """registers of very small or very large components; only operations whose
    exact terms stay inside the range of normal numbers"""
    far = rng.random() < 0.6
    es = [-170, -250, -290, 170, 250, 290] if far else [-120, -60, 60, 120]
    ops = ["abs", "absOf", "add", "addOf", "sub", "subOf", "create", "scale", "scaled"] if far else INPLACE + TOVEC + TONUM
    e = rng.choice(es)

    def comp():
        if rng.random() < 0.15:
            return 0.0
        return rng.choice([-1, 1]) * rng.uniform(0.1, 1) * 10.0 ** (e if rng.random() < 0.8 or not far else rng.choice(es))
    n, steps = rng.choice([1, 2, 3]), []
    regs = [[comp() for _ in range(3)] for _ in range(n)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        op, i, j = rng.choice(ops), rng.randint(1, n), rng.randint(1, n)
        if not far and op in INPLACE and op != "abs" and len(steps):
            continue
        f = rng.choice([1, -1, 2, 0.5, -0.75]) if far else rng.choice([1, 0, -1, 2, 0.5, rng.uniform(0.1, 1)])
        steps.append(step(op, i, j, f, rng.choice([1, -2, 0.5]), 0 if op in INPLACE or not far else rng.choice([0, i, j])))
    return {"regs": [[s(c) for c in v] for v in regs], "steps": steps}


def R01(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Vec", "CONSTANTS Depth = %d Emit = TRUE\nSPECIFICATION Spec" % 2 + I("OnlyTarget Accepts Rejects Laws Output"),
                     "short histories of vector operations over two registers, operands the same or not", timeout=800)
    if not ctx.quick:
        ctx.model("MC_Vec", "CONSTANTS Depth = 3 Emit = FALSE\nSPECIFICATION Spec" + I("OnlyTarget Accepts Rejects Laws"), "histories of three operations", timeout=850, heap="12g")
    cases = []
    rng.shuffle(outs)
    un = lambda x: (x[0] * sum(v << (15 * k) for k, v in enumerate(x[1:])))
    for o in outs[:ctx.pick(3000, 30000)]:
        st = [step(h["op"], h["i"], h["j"], h["f"], 2, 0 if h["op"] in INPLACE else h["dst"]) for h in o["h"]]
        cases.append({"regs": [[s(un(c)) for c in v] for v in o["s"]], "steps": st})
    for _ in range(ctx.pick(3000, 40000)):
        cases.append(history(rng, INPLACE * 2 + TOVEC * 2 + TONUM, rng.choice([1, 3, 8, 15])))
    for _ in range(ctx.pick(600, 6000)):
        cases.append(extreme(rng))
    conform(ctx, "r3", [("history", c, None) for c in cases], "Trace_Vec", mk_history, "histories of vector operations", why="WhyHistory")


def near_unit(rng):
    """vectors whose squared length is close to one"""
    v = [rng.gauss(0, 1) for _ in range(3)]
    if rng.random() < 0.3:
        v[rng.randrange(3)] = 0.0
    m = sqrt(sum(c * c for c in v))
    t = 10.0 ** rng.uniform(-16, -9) * rng.choice([-1, 1]) if rng.random() < 0.6 else rng.choice([-1, 1]) * rng.uniform(1e-14, 4e-14)
    return [c / m * (1 + t) for c in v]


def R02(ctx):
    rng = ctx.rng
    ctx.model("MC_Lengths", "CONSTANTS N = %d\nINIT Init\nNEXT Next" % ctx.pick(4, 7) + I("Root1 Unit1 Unit2 Test"), "lengths and normalised vectors with rational length", timeout=600)
    cases = []
    for _ in range(ctx.pick(3000, 40000)):
        cases.append(history(rng, LENGTHS + ["scale", "add", "sub", "subOf", "scaled", "addOf"], rng.choice([1, 3, 8])))
    for _ in range(ctx.pick(2500, 40000)):
        k = rng.random()
        v = near_unit(rng) if k < 0.5 else vec(rng)
        if 0.5 < k < 0.7:
            f = 10.0 ** rng.randint(-100, 100)
            v = [rng.uniform(-f, f) for _ in range(3)]
        ops = [step("isUnit"), step("norm"), step("magnitude"), step("normalizeOf", dst=2), step("isUnit", 2), step("distance", 1, 2), step("distance", 2, 1), step("normalize"), step("isUnit"),
               step("norm", 3), step("normalizeOf", 3, dst=2), step("distance", 1, 3)]
        cases.append({"regs": [[s(c) for c in v], ["1", "2", "3"]], "steps": ops})
    conform(ctx, "r3", [("history", c, None) for c in cases], "Trace_Vec", mk_history, "histories with lengths and normalisation", why="WhyHistory")


def mk_meet(a, meta, r, st):
    u = meta      # exponents of the units the driver was given the numbers in
    rec = {k.lower(): [num(int(float(c) / 2.0 ** u[k])) for c in a[k]] for k in a}
    rec.update(m=[[0]] * 3, den=[1, 1])
    if r is not None:
        if not all(isfinite(float(c)) for c in r):
            rec.update(m=[num(1 << 3000)] * 3)
        else:
            fr = [Fraction(float(c)) / Fraction(2) ** u["P"] for c in r]
            d = max(c.denominator for c in fr)
            rec.update(m=[num(int(c * d)) for c in fr], den=num(d))
    return rec


def mk_dist(a, meta, r, st):
    fr = {k: [Fraction(float(c)) for c in a[k]] for k in a}
    got = [Fraction(float(c)) if isfinite(float(c)) else Fraction(1 << 3000) for c in (r or ["0", "0"])]
    e = max(bits(c) for v in list(fr.values()) + [got] for c in v)
    rec = {k.lower(): [scaled(c, e) for c in fr[k]] for k in fr}
    rec.update(at0=scaled(got[0], e), dist=scaled(got[1], e), e=e, unit=abs(sum(c * c for c in fr["N"]) - 1) < Fraction(1, 10 ** 14))
    return rec


def mk_normal(a, meta, r, st):
    rec = {k.lower(): [num(int(float(c) / 2.0 ** meta)) for c in a[k]] for k in "ABC"}
    rec.update(m=[[0]] * 3)
    if r is not None:
        fr = [Fraction(float(c)) if isfinite(float(c)) else Fraction(1 << 3000) for c in r]
        d = max(c.denominator for c in fr)
        rec["m"] = [num(int(c * d)) for c in fr]
    return rec


def ints(rng, m):
    return [rng.randint(-m, m) for _ in range(3)]


def R03(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Planes", "CONSTANTS N = %d Emit = TRUE\nINIT Init\nNEXT Next" % ctx.pick(1, 2) + I("Parallel NowhereOrAll OnPlane OnLine LengthFree OnlyOne Output"),
                     "where lines meet planes, on a lattice", timeout=800)
    rng.shuffle(outs)
    cases = [(o["p"], o["d"], o["o"], o["n"]) for o in outs[:ctx.pick(5000, 40000)]]
    for _ in range(ctx.pick(5000, 60000)):
        m = rng.choice([1, 3, 5, 10, 100, 10 ** 4])
        p, d, o, n = ints(rng, m), ints(rng, m), ints(rng, m), ints(rng, m)
        k = rng.random()
        if k < 0.3:      # parallel
            w = ints(rng, m)
            d = [n[1] * w[2] - n[2] * w[1], n[2] * w[0] - n[0] * w[2], n[0] * w[1] - n[1] * w[0]]
            if k < 0.1:
                o = [x + y for x, y in zip(p, d)]
        elif k < 0.4:      # nearly parallel
            w = ints(rng, m)
            d = [n[1] * w[2] - n[2] * w[1], n[2] * w[0] - n[0] * w[2], n[0] * w[1] - n[1] * w[0]]
            d[rng.randrange(3)] += rng.choice([-1, 1])
        elif k < 0.5:      # along an axis
            d = [0, 0, 0]
            d[rng.randrange(3)] = rng.choice([1, -1, 7])
        if any(d) and any(n):
            cases.append((p, d, o, n))
    V = lambda v: [s(c) for c in v]
    meets = []
    for p, d, o, n in cases:      # any units: of the places, the direction and the normal
        a, b, c = (rng.choice([0, 0, 0, -40, -25, -12, -4, 7, 30]) for _ in range(3))
        W = lambda v, e: V([x * 2.0 ** e for x in v])
        meets.append(("meet", {"P": W(p, a), "D": W(d, b), "O": W(o, a), "N": W(n, c)}, {"P": a, "D": b, "O": a, "N": c}))
    conform(ctx, "r3", meets, "Trace_Vec", mk_meet, "lines meeting planes", why="WhyMeet")
    dist = []
    for _ in range(ctx.pick(3000, 30000)):
        m = rng.choice([1, 5, 100, 10 ** 4])
        n = ints(rng, rng.choice([1, 3, 10, 1000]))
        if not any(n):
            continue
        k = rng.random()
        if k < 0.6:
            f = sqrt(sum(c * c for c in n))
            n = [c / f for c in n]
        elif k < 0.75:
            n = rng.choice([[0.6, 0.8, 0], [0, -0.6, 0.8], [-0.8, 0, -0.6], [1, 0, 0], [0, 0, -1]])
        o, q = ints(rng, m), ints(rng, m)
        if rng.random() < 0.2:
            o, q = [rng.uniform(-m, m) for _ in range(3)], [rng.uniform(-m, m) for _ in range(3)]
        if rng.random() < 0.3:
            f = 2.0 ** rng.choice([-40, -25, -12, 12, 30])
            o, q = [c * f for c in o], [c * f for c in q]
        dist.append({"N": V(n), "O": V(o), "Q": V(q)})
    conform(ctx, "r3", [("planeDistance", a, None) for a in dist], "Trace_Vec", mk_dist, "distances to planes", why="WhyDistance")
    nor = []
    for _ in range(ctx.pick(2000, 20000)):
        m = rng.choice([1, 2, 10, 1000])
        a, b, c = ints(rng, m), ints(rng, m), ints(rng, m)
        k = rng.random()
        if k < 0.1:      # in line
            c = [x + 2 * (y - x) for x, y in zip(a, b)]
        elif k < 0.15:
            c = list(rng.choice([a, b]))
        u = rng.choice([0, 0, 0, -40, -25, -12, 12, 30])
        a, b, c = ([x * 2.0 ** u for x in v] for v in (a, b, c))
        nor.append(({"A": V(a), "B": V(b), "C": V(c), "N": V([0, 0, 1])}, u))
    conform(ctx, "r3", [("planeNormal", a, u) for a, u in nor], "Trace_Vec", mk_normal, "normals of three points", why="WhyNormal")
