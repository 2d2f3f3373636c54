"""N01-N03: the B-spline code of the nurbs module."""
from fractions import Fraction
from math import inf, isfinite, nextafter
from core import conform
from c_meshes import num
from c_planar import s
from c_spatial import I


def q(x, f=1):
    """a float as <<numerator, denominator>>"""
    v = Fraction(float(x)) * f
    return [num(v.numerator), num(v.denominator)]


def span(U, n, p, u):
    if u >= U[n + 1]:
        return n
    if u < U[p]:
        return p
    return next(i for i in range(p, n + 1) if U[i] <= u < U[i + 1])


def base(a):
    u = Fraction(float(a["u"]))
    d = u.denominator
    return {"U": [num(k * d) for k in a["U"]], "u": num(int(u * d)), "n": a["n"], "p": a["p"], "same": True}


def floats(xs):
    return all(isfinite(float(x)) for x in xs)


def mk_span(a, meta, r, st):
    rec = base(a)
    rec.update(s=-1)
    if r is not None:
        rec.update(s=r["s"], same=r["same"])
    return rec


def mk_basis(a, meta, r, st):
    rec = base(a)
    rec.update(s=a["i"], N=[])
    if r is not None:
        rec["same"] = r["same"]
        if floats(r["N"]):
            rec["N"] = [q(x) for x in r["N"]]
    return rec


def mk_ders(a, meta, r, st):
    rec = base(a)
    rec.update(s=a["i"], D=[], k=a["k"])
    if r is not None:
        rec["same"] = r["same"]
        rec["D"] = [[q(x) for x in row] if floats(row) else [] for row in r["D"][:a["k"] + 1]]
    return rec


def mk_curve(a, meta, r, st):
    rec = base(a)
    fr = [[Fraction(float(c)) for c in p] for p in a["c"]]
    den = max(c.denominator for p in fr for c in p)
    rec.update(P=[[num(int(c * den)) for c in p] for p in fr], den=num(den), C=[[[1, 1], [0]]] * 3)
    if r is not None:
        rec["same"] = r["same"]
        rec["C"] = [q(x) for x in r["C"]] if floats(r["C"]) else [[num(1 << 2000), [1, 1]]] * 3
    return rec


def knots(rng, maxp=5, gap=9, deep=(6, 7, 8, 8, 9, 10, 13)):
    """a knot vector of the domain: (n, p, U)"""
    while True:
        p = rng.randint(0, maxp) if rng.random() < 0.97 else rng.choice(deep)
        n = p + (rng.choice([0, 1, 1, 2, 3, 4, 6, 10]) if rng.random() < 0.97 else rng.choice([20, 40, 70, 70, 140, 270]))
        m = n + p + 2
        k = rng.random()
        g = rng.choice([1, 1, 2, gap])
        if k < 0.35:        # clamped
            inner = sorted(rng.randint(1, max(1, g * (n - p + 1))) for _ in range(n - p))
            U = [0] * (p + 1) + inner + [max(inner + [0]) + rng.randint(1, g)] * (p + 1)
        elif k < 0.55:      # uniform
            U = [g * i for i in range(m)]
        else:
            U, x = [], 0
            for _ in range(m):
                U.append(x)
                x += rng.choice([0, 0, 1, rng.randint(0, g)]) if k < 0.85 else rng.randint(0, g)
        o = rng.choice([0, 0, -3, rng.randint(-40, 40)])
        if rng.random() < 0.1:      # beyond the whole numbers of single precision, or of 32 bits
            f = rng.choice([1, 1, 2 ** 20 + 7, 3 ** 20])
            U, o = [x * f for x in U], rng.choice([-1, 1]) * rng.choice([2 ** 24, 2 ** 31, 2 ** 33, 2 ** 40]) + rng.randint(-9, 9)
        U = [x + o for x in U]
        if max(map(abs, U)) >= 2 ** 50:
            continue
        if U[p] < U[p + 1] and U[n] < U[n + 1] and all(U[i] != U[i + p + 1] for i in range(n + 1)):
            return n, p, U


def param(rng, n, p, U, out=False):
    lo, hi = U[p], U[n + 1]
    k = rng.random()
    if out and k < 0.25:
        return rng.choice([lo - rng.choice([1, 0.5, 1e-9, 100]), hi + rng.choice([1, 0.5, 1e-9, 100]), U[0] - 1, U[-1] + 1])
    if k < 0.5:
        return rng.choice(U[p:n + 2])
    if k < 0.55:      # the very next number before or after a knot
        return float(min(hi, max(lo, nextafter(rng.choice(U[p:n + 2]), rng.choice([-1, 1]) * inf))))
    if k < 0.6:
        return min(hi, max(lo, rng.choice(U[p:n + 2]) + rng.choice([-1, 1]) * 2.0 ** -rng.randint(8, 40)))
    if k < 0.7:
        return min(hi, lo + rng.randint(0, 8 * (hi - lo)) / 8)
    return min(hi, max(lo, rng.uniform(lo, hi)))


def req(n, p, U, u, **kw):
    r = {"n": n, "p": p, "U": list(U), "u": s(u)}
    r.update(kw)
    return r


def ctrl(rng, n):
    k = rng.random()
    if k < 0.1:      # constant
        c = [rng.uniform(-9, 9) for _ in range(3)]
        return [list(map(s, c)) for _ in range(n + 1)]
    if k < 0.5:
        return [[s(rng.randint(-20, 20)) for _ in range(3)] for _ in range(n + 1)]
    if k < 0.7:      # one point stands out
        j = rng.randint(0, n)
        return [[s(1000 if i == j else rng.randint(0, 1)) for _ in range(3)] for i in range(n + 1)]
    f = rng.choice([1, 1e3, 1e-3])
    return [[s(rng.uniform(-f, f)) for _ in range(3)] for _ in range(n + 1)]


def basis_model(ctx):
    return ctx.model("MC_Basis", "CONSTANTS MaxP = %d MaxN = %d MaxK = %d Emit = TRUE\nSPECIFICATION Spec" % ctx.pick((3, 4, 3), (4, 5, 4)) + I("Divides RowOk Whole Same Cutting Constant Local Ends Output"),
                     "triangular scheme = recursive definition = polynomials = corner cutting, all small knot vectors", timeout=800)


def N01(ctx):
    rng = ctx.rng
    cases = []
    for o in basis_model(ctx):
        cases.append((o["n"], o["p"], o["U"], o["u"] / 2))
    for _ in range(ctx.pick(2500, 25000)):
        n, p, U = knots(rng, ctx.pick(5, 7), rng.choice([9, 1000]))
        cases.append((n, p, U, param(rng, n, p, U)))
    conform(ctx, "nurbs", [("curve", req(*c, c=ctrl(rng, c[0])), None) for c in cases], "Trace_Spline", mk_curve, "points of curves", why="WhyCurve")


def N02(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Span", "CONSTANTS MaxP = %d MaxN = %d MaxK = %d Emit = TRUE\nSPECIFICATION Spec\nPROPERTIES Shrinks Ends" % ctx.pick((3, 5, 4), (3, 7, 5)) + I("Inv Output"),
                     "the halving search ends on the interval of the parameter, all small knot vectors", timeout=800)
    ctx.prove("Proof_Span", "the halving search ends, on the interval of the parameter")
    cases = [(o["n"], o["p"], o["U"], o["u"] / 2) for o in outs]
    rng.shuffle(cases)
    cases = cases[:ctx.pick(6000, 60000)]
    for _ in range(ctx.pick(4000, 40000)):
        n, p, U = knots(rng, 7, rng.choice([9, 1000, 10 ** 6]))
        if rng.random() < 0.1:
            n, p, U = 200, 3, sorted(rng.randint(0, 2000) for _ in range(205))
            if not (U[3] < U[4] and U[200] < U[201] and all(U[i] != U[i + 4] for i in range(201))):
                continue
        cases.append((n, p, U, param(rng, n, p, U, True)))
    conform(ctx, "nurbs", [("span", req(*c), None) for c in cases], "Trace_Spline", mk_span, "knot intervals", why="WhySpan", to=3000)
    basis = []
    for o in basis_model(ctx):
        basis.append((o["n"], o["p"], o["U"], o["u"] / 2))
    for _ in range(ctx.pick(2000, 20000)):
        n, p, U = knots(rng, ctx.pick(5, 7), rng.choice([9, 1000]))
        basis.append((n, p, U, param(rng, n, p, U)))
    conform(ctx, "nurbs", [("basis", req(*c, i=span(c[2], c[0], c[1], c[3])), None) for c in basis], "Trace_Spline", mk_basis, "basis functions", why="WhyBasis")


def N03(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Ders", "CONSTANTS MaxP = %d MaxN = %d MaxK = %d Emit = TRUE\nSPECIFICATION Spec" % ctx.pick((3, 4, 4), (4, 5, 5)) + I("Scheme Recurrence Sums NonZero Output"),
                     "derivative scheme = derivative recurrence = derivatives of the polynomials, all small knot vectors", timeout=800)
    cases = [(o["n"], o["p"], o["U"], o["u"]) for o in outs]
    rng.shuffle(cases)
    cases = cases[:ctx.pick(2500, 25000)]
    for _ in range(ctx.pick(1500, 12000)):
        n, p, U = knots(rng, ctx.pick(5, 6), rng.choice([3, 9, 30]), (6, 7, 8))
        cases.append((n, p, U, rng.randint(U[p], U[n + 1]) if rng.random() < 0.5 else rng.choice(U[p:n + 2])))
    full = []
    for c in cases:
        full.append(("ders", req(*c, i=span(c[2], c[0], c[1], c[3]), k=c[1] if rng.random() < 0.8 else rng.randint(0, c[1])), None))
    conform(ctx, "nurbs", full, "Trace_Spline", mk_ders, "derivatives of basis functions", why="WhyDers")
