"""S01-S04: the STEP reader."""
from core import conform, status, CheckError

B = lambda s: list(s if isinstance(s, bytes) else s.encode("latin-1"))


# ------------------------------------------------------------- generators
def gen_string(rng):
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 20])
    out = b"'"
    for _ in range(n):
        out += rng.choice([b"''", b"a", b"Z", b"0", b" ", b"  ", b",", b"(", b")", b";", b"=", b"#", b"#12", b"#1=", b"#1=A(1);", b"/", b"\\", b"*", b"$",
                           b"\xc3\xa9", b"\xe6\x97\xa5", b"\xff", b"\xe9", b"\t", b".T.", b"');", b"(("
                           ]).replace(b"');", b"''););")
    return out + b"'"


def gen_atom(rng):
    r = rng.random()
    if r < 0.25:
        return gen_string(rng)
    if r < 0.45:
        return b"#%d" % rng.choice([1, 2, 3, 10, 99, 123456, rng.randrange(1, 10 ** 7), rng.randrange(1, 10 ** 24)])
    if r < 0.65:
        return rng.choice([b"0.", b"1.5", b"-3.25E-7", b"12", b"-0", b"1.E+10", b"%d" % rng.randrange(-10 ** 6, 10 ** 6)])
    if r < 0.8:
        return rng.choice([b".T.", b".F.", b".UNSPECIFIED.", b"$", b"*", b".PLANE_SURF."])
    if r < 0.9:
        return rng.choice([b"LENGTH_MEASURE(2.5)", b"A('(',#3)", b"NAMED_UNIT(*)"])
    return gen_string(rng)


def gen_item(rng, depth):
    """returns tokens (byte strings that must not be broken)"""
    if depth > 0 and rng.random() < 0.45:
        toks = [b"("]
        n = rng.choice([1, 1, 2, 3, 4, 7])
        for i in range(n):
            if i:
                toks.append(b",")
            toks += gen_item(rng, depth - 1)
        return toks + [b")"]
    return [gen_atom(rng)]


def gen_args(rng, nmax=6, depth=3):
    n = rng.choice([1, 1, 2, 3, rng.randrange(1, nmax + 1)])
    toks = []
    for i in range(n):
        if i:
            toks.append(b",")
        toks += gen_item(rng, rng.randrange(depth + 1))
    return toks


KEYWORDS = [b"A", b"CARTESIAN_POINT", b"B_SPLINE_SURFACE_WITH_KNOTS", b"X1", b"ADVANCED_FACE", b"PRODUCT", b"Z_9_Z", b"DIRECTION", b"!USER_DEFINED", b"lower_case"]
HEADS = [
    [],
    [b"ISO-10303-21;", b"HEADER;", b"FILE_DESCRIPTION((''),'2;1');", b"FILE_NAME('a','2020-01-01',(''),(''),'','','');", b"FILE_SCHEMA(('AP214'));", b"ENDSEC;", b"DATA;"],
    [b"ISO-10303-21;", b"HEADER;", b"FILE_DESCRIPTION(('#1=A(1);',", b"'x=y'),'2;1');", b"", b"  FILE_NAME('#5=','',(),(),'it''s','=','');", b"ENDSEC;", b"", b"DATA;"],
    [b"", b"  ", b"DATA;"],
]
TAILS = [[], [b"ENDSEC;", b"END-ISO-10303-21;"], [b"", b"ENDSEC;", b"", b"  ", b"END-ISO-10303-21;", b""], [b" ENDSEC;", b"TRAILER('=#3=(');"]]


def gen_file(rng, big=False):
    style = rng.choice(["tight", "tight", "spaced", "broken", "wild"])
    pbreak = {"tight": 0, "spaced": 0, "broken": 0.15, "wild": 0.35}[style]
    pblank = {"tight": 0, "spaced": 0.25, "broken": 0.1, "wild": 0.4}[style]
    lines = list(rng.choice(HEADS))
    if rng.random() < 0.12:   # a header line longer than read buffers
        k = rng.choice([4090, 4096, 5000, 8192])
        lines.append(b"FILE_DESCRIPTION(('" + b"#1=A(1);" * (k // 8) + b"'),'2;1');")
    if rng.random() < 0.1:
        k = rng.choice([4095, 4096, 4097])
        lines.append(b"X" * k + b"#7=B(1);"[: rng.choice([0, 8])])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 25])
    if big:
        n = rng.choice([1, 2, 3])
        if big > 1:
            n, style, pbreak = 2, "tight", 0
    names = [b"#%d" % rng.choice([rng.randrange(1, 30), rng.randrange(1, 10 ** rng.randrange(1, 9))]) for _ in range(n)]
    if rng.random() < 0.2:      # long names; names written with zeros
        names = [b"#%d" % rng.randrange(10 ** 8, 10 ** rng.choice([9, 10, 12, 19, 20, 30])) for _ in range(n)]
    elif rng.random() < 0.1:
        names = [b"#%06d" % rng.randrange(1, 1000) for _ in range(n)]
    if n and rng.random() < 0.4:   # the same name again
        names[-1] = names[0]
    if n > 3 and rng.random() < 0.3:
        names[2] = names[1]
    def blanks():
        return b"".join(rng.choice([b" ", b" ", b"\t", b"   "]) for _ in range(rng.choice([1, 1, 2])))
    for nm in names:
        kw = rng.choice(KEYWORDS)
        args = gen_args(rng, nmax=6, depth=3)
        if big:
            want = big if big > 1 else rng.choice([4080, 4096, 4100, 8200, 20000])
            while sum(map(len, args)) < want:
                args += [b","] + gen_item(rng, 2)
        toks = [nm, b"=", kw, b"("] + args + [b")", b";"]
        line = b""
        for t in toks:
            if rng.random() < pblank:
                line += blanks()
            if rng.random() < pbreak and (line or t != nm):
                lines.append(line)
                line = b""
                if rng.random() < 0.15:
                    lines.append(b"")
                if rng.random() < pblank:
                    line += blanks()
            line += t
        if rng.random() < pblank:
            line += blanks()
        lines.append(line)
        if rng.random() < 0.1:
            lines.append(rng.choice([b"", b" ", b"\t"]))
    lines += rng.choice(TAILS)
    return lines


def edge_case(rng, k, eol, final):
    """a file whose last line (and one more) has exactly k bytes"""
    def line(nm):
        s, t = nm + b"=" + rng.choice(KEYWORDS) + b"('", rng.choice([b"',#2);", b"');", b"' ,$ ) ;", b"',7); "])
        return s + bytes(rng.choice(b"abc ,;(#=") for _ in range(k - len(s) - len(t))) + t
    ls = [line(b"#7"), b"#8=A(1);", line(b"#9")] if rng.random() < 0.7 else [b"DATA;", line(b"#9")]
    return ("lex", {"lines": [list(x) for x in ls], "eol": list(eol), "final": final}, "table")


def lexcase(rng, lines, expect="table"):
    eol = rng.choice([b"\n", b"\n", b"\r\n"])
    final = rng.random() < 0.7
    if lines and lines[-1] == b"":
        final = True
    return ("lex", {"lines": [list(l) for l in lines], "eol": list(eol), "final": final}, expect)


def mk_lex(a, meta, r, st):
    return {"lines": a.get("lines", []), "expect": meta, "table": r["table"] if r else []}


def S01(ctx):
    rng = ctx.rng
    # every layout of small files, from the specification
    outs = ctx.model("MC_StepLex", "CONSTANTS Budget = %d Emit = TRUE\nINIT Init\nNEXT Next\nINVARIANT Agree\nINVARIANT Output\nINVARIANT Grows" % ctx.pick(1, 2),
                     "all layouts of small STEP files: lexer machine = meaning = what the writer meant")
    seen, cases = set(), []
    for o in outs:
        key = str(o["lines"])
        if key in seen:
            continue
        seen.add(key)
        cases.append(("lex", {"lines": o["lines"], "eol": rng.choice([[10], [13, 10]]), "final": True if not o["lines"] or not o["lines"][-1] else rng.random() < 0.7}, "table"))
    conform(ctx, "step", cases, "Trace_Step", mk_lex, "behaviours of MC_StepLex replayed", why="WhyLex")
    cases = [lexcase(rng, gen_file(rng)) for _ in range(ctx.pick(1200, 12000))]
    cases += [lexcase(rng, gen_file(rng, big=True)) for _ in range(ctx.pick(60, 600))]
    cases += [lexcase(rng, gen_file(rng, big=k)) for k in ctx.pick([66000, 140000], [33000, 66000, 140000, 300000])]      # one line, longer than any usual buffer
    cases += [edge_case(rng, k, eol, final) for k in ctx.pick([4096, 8192], [64, 256, 1024, 2048, 4096, 8192, 12288, 16384, 65536])
              for k in (k - 2, k - 1, k, k + 1, k + 2) for eol in (b"\n", b"\r\n") for final in (True, False)]
    for k in ctx.pick([130, 600], [130, 300, 1100, 5000]):      # many instances
        cases.append(lexcase(rng, list(rng.choice(HEADS)) + [b"#%d=%s(%s);" % (i * 7 % 10007, rng.choice(KEYWORDS), b"".join(gen_args(rng, 3, 1))) for i in range(k)] + list(rng.choice(TAILS))))
    # files that cannot be read
    d = ctx.scratch("files")
    open(d + "/plain", "w").write("#1=A(1);\n")
    for p in (d + "/missing.stp", d, d + "/plain/x.stp", ctx.work, "", d + "/no/such/dir.stp"):
        if p:
            cases.append(("lex", {"path": p}, "failure"))
    conform(ctx, "step", cases, "Trace_Step", mk_lex, "random files", why="WhyLex")
    ctx.assumptions += ["no comments, at most one instance starts per line, at least one argument per instance"]


# -------------------------------------------------------------------- S02
def mk_items(a, meta, r, st):
    kind = meta["kind"]
    if kind == "inst":
        return {"kind": kind, "lines": a["lines"], "items": meta["items"], "table": r["table"] if r else []}
    return {"kind": kind, "text": a["text"], "items": (r["rows"] if kind == "matrix" else r["items"]) if r else []}


def spaced(rng, toks, p):
    out = b""
    for t in toks:
        if rng.random() < p:
            out += rng.choice([b" ", b"\t", b"  "])
        out += t
    if rng.random() < p:
        out += b" "
    return out


def top_items(toks):
    """ground truth: token lists of the top level items"""
    items, cur, d = [], [], 0
    for t in toks:
        if t == b"(":
            d += 1
        elif t == b")":
            d -= 1
        if t == b"," and d == 0:
            items.append(cur)
            cur = []
        else:
            cur.append(t)
    return items + [cur]


def items_cases(rng, text, items):
    t = list(text)
    cs = [("arguments", {"text": t + B(rng.choice([");", ");", ");", ") ;", ")\t;", ");\t", ");  "]))}, {"kind": "arguments"}),
          ("array", {"text": B("(") + t + B(")")}, {"kind": "list"}),
          ("lex", {"lines": [B("#1=K(") + t + B(rng.choice([");", " );", ") ;", ");  ", ");\t", ")\t;", "\t)\t;\t", ") ; \t "]))], "eol": [10], "final": True}, {"kind": "inst", "items": [list(x) for x in items]})]
    return cs


def S02(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_StepArgs", "CONSTANTS MaxLen = %d Emit = TRUE\nINIT Init\nNEXT Walk\nINVARIANT Agree\nINVARIANT Output" % ctx.pick(5, 7),
                     "all argument texts up to a length: scanner = items meant by the writer")
    ctx.prove("Proof_Args", "the scanner cuts a text where its writer ends items")
    cases = []
    for o in outs:
        if len(o["text"]) > 5 and rng.random() > 0.2:
            continue
        cs = items_cases(rng, bytes(o["text"]), o["items"])
        cases += cs if ctx.quick is False or rng.random() < 0.5 else [cs[rng.randrange(3)]]
        if rng.random() < 0.1:
            cases.append(("matrix", {"text": B("((") + o["text"] + B("))")}, {"kind": "matrix"}))
    run_items(ctx, cases, "behaviours of MC_StepArgs replayed")
    cases = []
    for _ in range(ctx.pick(900, 9000)):
        toks = gen_args(rng, nmax=rng.choice([2, 6, 30]), depth=rng.choice([0, 1, 3, 6]))
        p = rng.choice([0, 0, 0.2, 0.5])
        items = [spaced(rng, it, p) for it in top_items(toks)]
        text = b",".join(items)
        cases += rng.sample(items_cases(rng, text, [x.strip(b" \t") for x in items]), 2)
    for _ in range(ctx.pick(250, 2500)):      # matrices
        rows = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 12])):
            n = rng.choice([1, 2, 3, 4, 9])
            toks = []
            for i in range(n):
                toks += ([b","] if i else []) + (gen_item(rng, 1) if rng.random() < 0.2 else [gen_atom(rng)])
            rows.append([b"("] + toks + [b")"])
        toks = [b"("]
        for i, r in enumerate(rows):
            toks += ([b","] if i else []) + r
        text = spaced(rng, toks + [b")"], rng.choice([0, 0, 0.3])).strip(b" \t")
        cases.append(("matrix", {"text": list(text)}, {"kind": "matrix"}))
    # very deep and very long
    for d in (50, 200, 1000):
        text = b"(" * d + b"'x,y'" + b",1)" * d
        cases += items_cases(rng, text + b",2", [text, b"2"])
    items = [rng.choice([gen_string(rng), b"#%d" % i, b"(%d,%d)" % (i, i)]) for i in range(2000)]
    cases += items_cases(rng, b",".join(items), items)
    run_items(ctx, cases, "random argument texts")


def run_items(ctx, cases, what):
    a = [c for c in cases if c[2]["kind"] != "inst"]
    b = [c for c in cases if c[2]["kind"] == "inst"]
    conform(ctx, "step", a, "Trace_Step", mk_items, what, why="WhyItems")
    conform(ctx, "step", b, "Trace_Step", mk_items, what + ", through a file", why="WhyInst")


# --------------------------------------------------------------- S03, S04
LABELS = [b"name", b"uDegree", b"vDegree", b"controlPointsList", b"surfaceForm", b"uClosed", b"vClosed", b"selfIntersect", b"uMultiplicities", b"vMultiplicities", b"uKnots", b"vKnots"]
SKIP_A, SKIP_B = b"doesn't loop like i've implemented ` ", b" ` skipping to next States.."


def events_of(out):
    """projects what the parser printed onto the events of the specification"""
    lines = bytes(out).split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    ev, i = [], 0
    txt = lambda b: b.decode("latin-1")
    while i < len(lines):
        x = lines[i]
        i += 1
        if x.startswith(SKIP_A) and x.endswith(SKIP_B):
            ev.append({"e": "skip", "t": txt(x[len(SKIP_A):-len(SKIP_B)]), "f": []})
        elif x == b"parsing advanced face" and i < len(lines):
            ev.append({"e": "face", "t": txt(lines[i]), "f": []})
            i += 1
        elif x == b"it's a sphere" or x.startswith(b"STATES"):
            pass
        elif x == b"Bazinga!!!!!!":
            if i < len(lines) and lines[i].startswith(b"radius: "):
                ev.append({"e": "sphere", "t": "", "f": [["radius", list(lines[i][8:])]]})
                i += 1
            else:
                ev.append({"e": "torus", "t": "", "f": []})
        elif x.startswith(b"Hooray! we found"):
            f = []
            while i < len(lines):
                if lines[i].startswith(b"len("):
                    i += 1
                    continue
                lab = next((l for l in LABELS if lines[i].startswith(l + b":") or lines[i].startswith(l + b" ")), None)
                if lab is None:
                    break
                v = lines[i][len(lab):]
                v = v[1:] if v[:1] == b":" else v
                v = v[1:] if v[:1] == b" " else v
                f.append([lab.decode(), list(v)])
                i += 1
            ev.append({"e": "bspline", "t": "", "f": f})
        else:
            ev.append({"e": "other", "t": txt(x), "f": []})
    return ev


def mk_parse(a, meta, r, st):
    if meta == "infer":
        return {"kind": "infer", "nodes": [{"name": k, "next": v} for k, v in a["next"].items()], "events": r["events"] if r else []}
    ins = [{"name": bytes(x["name"]).decode("latin-1"), "type": bytes(x["type"]).decode("latin-1"), "args": x["args"],
            "refs": [bytes(y).decode("latin-1") if len(y) < 40 else "" for y in x["args"]]} for x in a["table"]]
    return {"kind": "parse", "insts": ins, "events": events_of(r["out"]) if r else []}


OTHER_KEYWORDS = ["CARTESIAN_POINT", "VERTEX_POINT", "EDGE_CURVE", "MANIFOLD_SOLID_BREP", "PLANE", "B_SPLINE_SURFACE", "FACE_BOUND", "SPHERICAL_SURFACE_2", "ADVANCED_FACES", "X", "LINE",
                  "CYLINDRICAL_SURFACE", "advanced_face", "OPEN_SHELL", "FACE_OUTER_BOUND"]


def bspline_args(rng):
    def lst(n, f):
        sep = rng.choice([b",", b",", b", ", b" , "])
        return b"(" + rng.choice([b"", b"", b" "]) + sep.join(f() for _ in range(n)) + rng.choice([b"", b"", b" "]) + b")"
    num = lambda: b"%d" % rng.randrange(0, 12)
    real = lambda: rng.choice([b"0.", b"1.", b"%d.%d" % (rng.randrange(100), rng.randrange(1000)), b"-2.5E-3", b"+1.50", b"007.", b"1.0E+02", b"0.30000000000000000001"])
    ref = lambda: b"#%d" % rng.randrange(1, 5000)
    nm = rng.choice([b"''", b"'surf'", b"'a b, (c) it''s'", b"'\xc3\xa9\xff'", b"'x%d'" % rng.randrange(1000)])
    rows, cols = rng.choice([1, 2, 2, 3, 4, 7, 20]), rng.choice([1, 2, 3, 4, 9])
    if rng.random() < 0.05:
        rows, cols = rng.choice([(40, 3), (3, 70), (130, 1), (2, 140)])
    tf = lambda: rng.choice([b".T.", b".F."])
    nu, nv = rng.choice([1, 2, 3, 5, 11]), rng.choice([1, 2, 4, 8])
    if rng.random() < 0.1:
        nu, nv = rng.choice([(20, 3), (40, 40), (3, 70), (140, 2), (300, 1)])
    a = [nm, b"%d" % rng.randrange(1, 10), b"%d" % rng.randrange(1, 10), b"(" + b",".join(lst(cols, ref) for _ in range(rows)) + b")",
         rng.choice([b".UNSPECIFIED.", b".PLANE_SURF.", b".SPHERICAL_SURF.", b".RULED_SURF."]), tf(), tf(), tf(),
         lst(nu, num), lst(nv, num), lst(nu, real), lst(nv, real)]
    if rng.random() < 0.8:
        a.append(rng.choice([b".UNSPECIFIED.", b".QUASI_UNIFORM_KNOTS.", b".T."]))
    return a


def gen_table(rng, size, focus=None):
    """a table of instances whose references have the kinds they call for, or
    are undefined, shared, self-referential or cyclic"""
    names = [b"#%d" % k for k in rng.sample(range(1, 10 ** rng.choice([2, 4, 7])), size)]
    if rng.random() < 0.2:
        names = [b"#%d" % (i + 1) for i in range(size)]
    elif rng.random() < 0.15:
        names = [b"#%0*d" % (rng.choice([5, 12]), i + 1) for i in range(size)]
    elif rng.random() < 0.15:
        names = [b"#%d%015d" % (rng.randrange(1, 9), k) for k in rng.sample(range(10 ** 6), size)]
    kinds = {}
    weights = {"ADVANCED_FACE": 3, "SPHERICAL_SURFACE": 3, "TOROIDAL_SURFACE": 1, "B_SPLINE_SURFACE_WITH_KNOTS": 1.5, "other": 2, "CARTESIAN_POINT": 1, "DIRECTION": 0.5,
               "AXIS_2_PLACEMENT_3D": 0.7, "PRODUCT_DEFINITION": 0.5, "PRODUCT_DEFINITION_SHAPE": 0.4, "PRODUCT_DEFINITION_FORMATION": 0.3, "PRODUCT_DEFINITION_CONTEXT": 0.3,
               "CLOSED_SHELL": 0.2, "FACE": 0.2, "VERTEX_LOOP": 0.2, "VERTEX_POINT": 0.3}
    if focus:
        weights[focus] = 8
    silent = 0
    for n in names:
        k = rng.choices(list(weights), list(weights.values()))[0]
        if k in ("AXIS_2_PLACEMENT_3D", "PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE"):
            silent += 1
            if silent > 5:
                k = "SPHERICAL_SURFACE"
        kinds[n] = k
    def of(*ks):
        return [n for n in names if kinds[n] in ks]
    undefd = lambda: rng.choice([b"#99999999", b"#0", b"$", b"*", b"''"])
    def ref(cands, me):
        r = rng.random()
        if r < 0.12 or not cands:
            return undefd()
        if r < 0.2:
            return me
        return rng.choice(cands)
    insts, uniq = [], 0
    for n in names:
        k = kinds[n]
        uniq += 1
        t, a = k, [b"''", b"#1", b"#2"]
        if k == "other":
            t = rng.choice(OTHER_KEYWORDS + ["KW_%d" % uniq] * 6)
            a = [rng.choice([b"''", b"1.5", b"(1,2)", b"#3"]) for _ in range(rng.choice([1, 1, 2, 5]))]
        elif k == "ADVANCED_FACE":
            r = rng.random()
            cands = of("SPHERICAL_SURFACE", "TOROIDAL_SURFACE") if r < 0.75 else of("B_SPLINE_SURFACE_WITH_KNOTS", "SPHERICAL_SURFACE", "other", "ADVANCED_FACE")
            a = [rng.choice([b"''", b"'f'"]), b"(#1,#2)", ref(cands, n), rng.choice([b".T.", b".F."])]
        elif k == "SPHERICAL_SURFACE":
            a = [rng.choice([b"''", b"'s'"]), ref(of("AXIS_2_PLACEMENT_3D"), n), rng.choice([b"%d.%d" % (uniq, rng.randrange(1000)), b"%d.E-3" % uniq, b"LENGTH(%d.)" % uniq, b"%d." % uniq, b"+%d.50" % uniq, b"%d" % uniq, b"0%d.25" % uniq, b"%d.0E+05" % uniq, b"1.%05d000000000000000001" % uniq, b"-%d.5" % uniq, b"%d.e2" % uniq])]
        elif k == "TOROIDAL_SURFACE":
            a = [b"''", ref(of("AXIS_2_PLACEMENT_3D"), n), b"%d." % uniq, b"0.5"]
        elif k == "B_SPLINE_SURFACE_WITH_KNOTS":
            a = bspline_args(rng)
        elif k in ("CARTESIAN_POINT", "DIRECTION"):
            a = [b"''", b"(0.,%d.,1.)" % uniq]
        elif k == "AXIS_2_PLACEMENT_3D":
            a = [b"''", ref(of("CARTESIAN_POINT", "DIRECTION"), n), ref(of("DIRECTION"), n), ref(of("DIRECTION"), n)]
        elif k == "PRODUCT_DEFINITION":
            a = [b"''", b"''", ref(of("PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION"), n), b"#9"]
        elif k == "PRODUCT_DEFINITION_SHAPE":
            a = [b"''", b"''", ref(of("PRODUCT_DEFINITION", "PRODUCT_DEFINITION_SHAPE"), n)]
        insts.append({"name": list(n), "type": B(t), "args": [list(x) for x in a]})
    return insts


def as_file(rng, table):
    """the table written down, in some order and layout"""
    t = table[:]
    rng.shuffle(t)
    lines = list(rng.choice(HEADS))
    loose = rng.random() < 0.5
    sp = lambda: rng.choice([b"", b"", b" ", b"\t", b"  "]) if loose else b""
    for x in t:
        line = sp() + bytes(x["name"]) + sp() + b"=" + sp() + bytes(x["type"]) + sp() + b"("
        for i, a in enumerate(x["args"]):
            line += (b"," if i else b"") + sp()
            if loose and rng.random() < 0.2 and line.strip():
                lines.append(line)
                line = sp()
            line += bytes(a) + sp()
        lines.append(line + b")" + sp() + b";" + sp())
        if loose and rng.random() < 0.1:
            lines.append(b"")
    lines += rng.choice(TAILS)
    return {"lines": [list(l) for l in lines], "eol": list(rng.choice([b"\n", b"\r\n"])), "table": table}


def parse_case(rng, t):
    """through a file, or handed to the parser as a table"""
    return ("readparse", as_file(rng, t), "parse") if rng.random() < 0.35 else ("parse", {"table": t}, "parse")


PARSE_CFG = "SPECIFICATION Spec\nINVARIANT Explained\nINVARIANT Sane"


def S03(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_StepParse", "CONSTANTS Wide = %s Emit = TRUE\nSPECIFICATION Spec\nINVARIANT AtMostOnce\nINVARIANT AllInTheEnd\nINVARIANT Stuck\nINVARIANT Output\nPROPERTY FollowedFirst\nPROPERTY Ends" % ctx.pick("FALSE", "TRUE"),
                     "all reference graphs over 3 keys, all root orders: once, all, first in first out, ends")
    ctx.prove("Proof_Parse", "the inference loop handles every key once, follows references before the next root, ends")
    rng.shuffle(outs)
    cases = [("infer", {"next": o["next"], "roots": o["roots"]}, "infer") for o in outs[:ctx.pick(3000, 20000)]]
    want = {str((o["next"], o["roots"])): [list(e) for e in o["events"]] for o in outs}
    recs, rej = conform(ctx, "step", cases, "Trace_Parse", mk_parse, "behaviours of MC_StepParse replayed", accept=True, cfg=PARSE_CFG)
    cases = []
    for _ in range(ctx.pick(150, 1500)):
        n = rng.choice([1, 2, 4, 8, 15, 40])
        ks = ["k%d" % i for i in range(n)]
        dens = rng.choice([0.3, 1, 2, 5])
        g = {k: [rng.choice(ks + ["u1", "u2"]) for _ in range(min(20, int(rng.expovariate(1 / dens))))] for k in ks}
        shape = rng.random()
        if shape < 0.1:       # long chain
            g = {k: [ks[i + 1]] if i + 1 < n else [ks[0]] for i, k in enumerate(ks)}
        elif shape < 0.2:     # one hub
            g = {k: (ks if i == 0 else [ks[0]]) for i, k in enumerate(ks)}
        roots = ks[:]
        rng.shuffle(roots)
        cases.append(("infer", {"next": g, "roots": roots}, "infer"))
    for n in ctx.pick([130, 300], [70, 130, 300, 600, 1100]):      # queues longer than usual buffers
        ks = ["k%d" % i for i in range(n)]
        for g in ({k: ks if i == 0 else [ks[i - 1]] for i, k in enumerate(ks)}, {k: [ks[j] for j in (2 * i + 1, 2 * i + 2) if j < n] for i, k in enumerate(ks)}):
            cases.append(("infer", {"next": g, "roots": ks}, "infer"))
    conform(ctx, "step", cases, "Trace_Parse", mk_parse, "random reference graphs through the inference loop", accept=True, cfg=PARSE_CFG)
    cases = []
    for _ in range(ctx.pick(300, 3000)):
        t = gen_table(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), rng.choice([None, None, "ADVANCED_FACE", "SPHERICAL_SURFACE"]))
        # several runs of one table: map order differs
        for _ in range(rng.choice([1, 2, 4])):
            cases.append(parse_case(rng, t))
    for n in ctx.pick([25, 50], [25, 50, 100, 200]):
        tab = []
        for i in range(n):      # each tells itself apart
            j = rng.randrange(n)
            if i < 5:      # (faces of surfaces already handled look alike: all their orders would be searched)
                tab.append((b"#%d" % (3 * i + 1), b"ADVANCED_FACE", [b"''", b"()", b"#%d" % (3 * i + 2), b".T."]))
            tab.append((b"#%d" % (3 * i + 2), b"SPHERICAL_SURFACE", [b"''", b"#999999", b"%d.5" % i]))
            tab.append((b"#%d" % (3 * i + 3), b"KW_%d" % i, [b"#%d" % (3 * j + 1)]))
        cases.append(("parse", {"table": [{"name": list(a), "type": list(b), "args": [list(x) for x in c]} for a, b, c in tab]}, "parse"))
    conform(ctx, "step", cases, "Trace_Parse", mk_parse, "parsing random tables", accept=True, cfg=PARSE_CFG)


def S04(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_StepParse", "CONSTANTS Wide = FALSE Emit = FALSE\nSPECIFICATION Spec\nINVARIANT AtMostOnce\nINVARIANT AllInTheEnd\nPROPERTY FollowedFirst", "inference loop the reports are made by")
    cases = []
    for _ in range(ctx.pick(500, 5000)):
        focus = rng.choice(["B_SPLINE_SURFACE_WITH_KNOTS", "ADVANCED_FACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE", "other", None])
        t = gen_table(rng, rng.choice([1, 1, 2, 3, 5, 8, 14]), focus)
        cases.append(parse_case(rng, t))
    conform(ctx, "step", cases, "Trace_Parse", mk_parse, "reports while parsing random tables", accept=True, cfg=PARSE_CFG)
    # all kinds of one B-spline: every combination of flags and degrees
    cases = []
    for u in (b".T.", b".F."):
        for v in (b".T.", b".F."):
            for s in (b".T.", b".F."):
                for _ in range(ctx.pick(3, 20)):
                    a = bspline_args(rng)
                    a[5:8] = [u, v, s]
                    cases.append(("parse", {"table": [{"name": B("#%d" % rng.randrange(1, 99)), "type": B("B_SPLINE_SURFACE_WITH_KNOTS"), "args": [list(x) for x in a]}]}, "parse"))
    conform(ctx, "step", cases, "Trace_Parse", mk_parse, "B-spline surfaces, all flag combinations", accept=True, cfg=PARSE_CFG)
