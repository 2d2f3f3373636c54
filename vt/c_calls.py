"""C01: calls do not influence one another."""
import importlib, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
from core import CheckError, NCPU, REPO, status

SOURCES = {"step": ["S01", "S02", "S03"], "shape": ["M02", "M05", "M04"], "glTF": ["X01", "X02"],
           "triangulate2": ["D01", "D03", "D04", "D06"], "meshing": ["B01", "B02", "B06", "B07", "B04"], "triangulate3": ["B02", "B04", "B05", "B07"],
           "predicates": ["B03"], "r3": ["R01", "R02", "R03"], "nurbs": ["N01", "N02", "N03"]}
GROUPS = {"S": "step", "M": "meshes", "X": "export", "D": "planar", "B": "spatial", "N": "nurbs", "R": "vectors"}
SKIP = {"parse", "readparse"}        # what they say goes to the process's one standard output


class Harvest:
    """Stands in for a context: keeps the calls a check would make."""
    tier, seed = "quick", 1
    states = transitions = validated = 0

    def __init__(self, rng):
        self.rng, self.got = rng, []
        self.samples, self.notes, self.parts, self.bad, self.assumptions = [], [], [], [], []

    def pick(self, quick, thorough):
        return max(1, quick // 25) if isinstance(quick, int) and quick > 60 else quick

    def call(self, key, reqs, **kw):
        self.got += [(key, op, a) for op, a in reqs]
        return [None] * len(reqs)

    def model(self, *a, **kw):
        return []

    def trace(self, *a, **kw):
        return {}

    def log(self, *a):
        pass

    sample = prove = log


def touches_zero(a):
    """uses the package's own Zero vector, which is everybody's"""
    return any(s.get(x) == len(a["regs"]) + 1 for s in a.get("steps", []) for x in ("i", "j", "dst"))


def harvest(ctx, key, n, all=False):
    """up to n different calls, about equally many of every operation"""
    ops = {}
    for prop in SOURCES[key]:
        h = Harvest(random.Random("%d/%s/%s" % (ctx.seed, prop, ctx.tier)))
        h.prop = prop
        try:
            getattr(importlib.import_module("c_" + GROUPS[prop[0]]), prop)(h)
        except Exception:       # a check that needs answers to go on
            pass
        for k, op, a in h.got:
            if k == key and (all or op not in SKIP and not (op == "lex" and a.get("path")) and '"room"' not in json.dumps(a)):
                t = json.dumps(a, sort_keys=True)
                if key == "shape" and (op in ("Sphere", "Torus") or a.get("n", 1) * a.get("m", 1) > 300):
                    continue        # many numbers, and nothing new
                if len(t) < 2500 and not (key == "r3" and touches_zero(a)):
                    ops.setdefault(op, {})[t] = a
    out = []
    for op, d in sorted(ops.items()):
        ks = sorted(d)
        out += [(op, d[k]) for k in ctx.rng.sample(ks, min(len(ks), max(4, n // len(ops))))]
    if len(ops) == 0:
        raise CheckError("no calls for " + key)
    return out


FLOATS = {"p", "q", "c", "r", "v", "regs", "P", "D", "O", "N", "Q", "A", "B", "C", "u"}
ALIKE = {"bowyerWatson", "infer"}    # their answers are settled in general position or by the table's order only


def leaves(x, path=(), on=False):
    """where the numbers of a call's arguments are"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,), k in FLOATS)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,), on)
    elif on and isinstance(x, str):
        yield path


def neighbour(rng, op, a):
    """a call which differs from this one in one thing only"""
    if op in ALIKE:
        return None
    b = json.loads(json.dumps(a))
    ways = list(leaves(b)) and ["number"]
    if b.get("U"):
        ways += ["knots"] * 2
    if isinstance(b.get("n"), int) and isinstance(b.get("m"), int) and b["n"] > 2:
        ways += ["count"]
    if isinstance(b.get("p"), list) and len(b["p"]) > 3 and op in ("hull", "triangulate", "nearest", "extents", "englobe", "simplex"):
        ways += ["fewer"]
    if "text" in b or "lines" in b:
        ways = ["byte"]
    if not ways:
        return None
    way = rng.choice(ways)
    if way == "knots":
        j = rng.randrange(len(b["U"]))
        b["U"][j:] = [x + 1 for x in b["U"][j:]]
    elif way == "count":
        k = rng.choice("nm" if b["m"] else "n")
        b[k] += rng.choice([1, 2])
    elif way == "fewer":
        b["p"].pop(rng.randrange(len(b["p"])))
    elif way == "byte":
        t = b["text"] if "text" in b else rng.choice(b["lines"] or [[]])
        at = [i for i, c in enumerate(t) if chr(c).isalnum() and c < 128]
        if not at:
            return None
        i = rng.choice(at)
        t[i] = t[i] + 1 if chr(t[i] + 1).isalnum() else t[i] - 1
    else:
        path = rng.choice(list(leaves(b)))
        x = b
        for k in path[:-1]:
            x = x[k]
        v = float(x[path[-1]])
        x[path[-1]] = repr(rng.choice([2 * v, v / 2] if path[0] == "r" else [-v, 2 * v, v + 1, v - 1]))
    return None if b == a else b


def answer(op, rs):
    """what a call says, where the order in which it says it does not matter"""
    st = status(rs)
    if st != "ok":
        return st
    r = rs["r"]
    if isinstance(r, dict):
        r = dict(r)
        if "table" in r:
            r["table"] = sorted(map(json.dumps, r["table"]))
        if op == "bowyerWatson":
            x = r["idx"]
            r["idx"] = sorted(sorted(x[i:i + 3]) for i in range(0, len(x), 3))
        if "steps" in r and op == "history":
            r["steps"] = [dict(s, failed=bool(s["failed"])) if isinstance(s, dict) and "failed" in s else s for s in r["steps"]]
    return json.dumps(r, sort_keys=True)


def races(log):
    """the functions of each reported race whose accesses are not the driver's own"""
    out = []
    for rep in re.split(r"={18}\n", log):
        if "DATA RACE" not in rep:
            continue
        tops = re.findall(r"(?:Read|Write|read|write) at [^\n]*:\n\s+\S[^\n]*\n\s+(\S+)", rep)
        if any("zzverif" in t or "zz_verif_" in t for t in tops):
            continue
        fs = re.findall(r"^  (\S+)\(\)\n\s+(\S+)", rep, re.M)
        fs = sorted({f.rsplit("/", 1)[-1] for f, where in fs if REPO in where and "zzverif" not in where and "zz_verif_" not in where})
        out.append(" ".join(fs[:4]) or "?")
    return sorted(set(out))[:5]


def models(ctx):
    cfg = "SPECIFICATION Spec\nINVARIANT Independent\nPROPERTY Ends\nCONSTANTS NProc = %d\n NCall = 3\n Rounds = %d\n Way = \"%s\""
    for way in ("own", "pool", "memo"):
        ctx.model("MC_Calls", cfg % (ctx.pick(2, 3), 2, way), "calls which keep what they work on: " + way)
    for way in ("global", "early", "kept", "short", "torn"):
        ok, text = ctx.tlc("MC_Calls", cfg % (2, 2, way))
        if ok or "Invariant Independent is violated" not in text:
            raise CheckError("specification MC_Calls does not tell %s apart:\n%s" % (way, text[-2000:]))
    ctx.prove("Proof_Calls", "own cells, pools and whole-key memos: every call answered as if alone, any number of processes")
    ctx.parts.append({"spec": "MC_Calls", "what": "ways that let calls influence one another are told apart", "behaviours": 5})


def C01(ctx):
    rng = ctx.rng
    models(ctx)
    recs, src = [], {}
    def build(key):
        return ctx.build(key), ctx.build(key, race=True)
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(SOURCES, ex.map(build, SOURCES)))
    ctx.log("drivers")
    for key in SOURCES:
        plain, race = bins[key]
        if race is None:
            ctx.notes.append("%s: no driver with race detection" % key)
        cs = harvest(ctx, key, ctx.pick(40, 120))
        # calls which differ in one thing only
        families = []
        for i in range(len(cs)):
            fam = [i]
            for _ in range(3):
                b = neighbour(rng, *cs[i])
                if b is not None and (cs[i][0], b) not in cs:
                    fam.append(len(cs))
                    cs.append((cs[i][0], b))
            if len(fam) > 1:
                families.append(fam)
        # each alone
        def alone(i):
            op, a = cs[i]
            return ctx._run_part(plain, [{"id": 1, "op": op, "a": a, "to": 20000}], "%s_alone%d" % (key, i), 8, None, {"VERIF_BARE": "1"})[1]
        with ThreadPoolExecutor(NCPU) as ex:
            first = list(ex.map(alone, range(len(cs))))
        use = [i for i in range(len(cs)) if not first[i].get("none") and status(first[i]) not in ("hang", "crash")]
        if not use:
            ctx.notes.append("%s: no call can be made" % key)
            continue
        ids = [{answer(cs[i][0], first[i]): 1} for i in range(len(cs))]
        byop = {}
        for i in use:
            byop.setdefault(cs[i][0], []).append(i)
        # histories: in a row, in a row with some called again and again, at the same time
        hist = []
        slow = 1 if key in ("shape", "step", "glTF") else 4
        for _ in range(ctx.pick(6, 30) * slow):
            pool = rng.sample(use, min(len(use), rng.choice([3, 8, 30])))
            hist.append((plain, [[rng.choice(pool) for _ in range(rng.choice([20, 60]))]]))
        rng.shuffle(families)
        ok = set(use)
        for g in range(0, len(families), 4):
            h = []
            for fam in families[g:g + 4]:
                fam = [i for i in fam if i in ok]
                order = [rng.choice(fam) for _ in range(2 * len(fam))] + fam[:1] if fam else []
                h = [x for p in zip(h, order) for x in p] + h[len(order):] + order[len(h):] if g % 8 else h + order
            if h:
                hist.append((plain, [h]))
        for n in range(ctx.pick(10, 45) * slow):
            pool = byop[rng.choice(sorted(byop))] if n % 2 else use
            pool = rng.sample(pool, min(len(pool), rng.choice([1, 3, 10])))
            hist.append((race if race and n % 5 else plain, [[rng.choice(pool) for _ in range(12)] for _ in range(rng.choice([2, 4, 8]))]))

        argv = [rng.choice([(), ("-v", "1"), ("--no-such-flag=1", "x"), ("x", "-h")]) for _ in hist]

        def run(t):
            n, (binary, procs) = t
            log = os.path.join(ctx.work, "race_%s_%d" % (key, n))
            env = {"VERIF_BARE": "1", "GOMAXPROCS": "4"}
            if binary is race:
                env["GORACE"] = "log_path=%s exitcode=0 atexit_sleep_ms=0" % log
            q = {"procs": [[{"id": i + 1, "op": cs[i][0], "a": cs[i][1]} for i in p] for p in procs]}
            rs = ctx._run_part(binary, [{"id": 1, "op": "calls", "a": q, "to": 120000}], "%s_hist%d" % (key, n), 8, None, env, argv[n])[1]
            text = ""
            for f in os.listdir(ctx.work):
                if f.startswith(os.path.basename(log) + "."):
                    text += open(os.path.join(ctx.work, f), errors="replace").read()
                    os.remove(os.path.join(ctx.work, f))
            return rs, text
        with ThreadPoolExecutor(NCPU // 2) as ex:
            got = list(ex.map(run, enumerate(hist)))
        for (binary, procs), (rs, text) in zip(hist, got):
            ev = []
            st = status(rs)
            if st == "crash" and "ThreadSanitizer" in rs["crash"] and "DATA RACE" not in text:
                ctx.notes.append("%s: the race detector does not run here" % key)
                continue
            for e in (rs["r"]["events"] if st == "ok" else []):
                i, v = e["K"] - 1, 0
                if e.get("R"):
                    w = answer(cs[i][0], e["R"])
                    v = ids[i].setdefault(w, len(ids[i]) + 1)
                ev.append([e["P"], e["K"], v])
            rec = {"id": len(recs) + 1, "status": st, "ev": ev, "alone": [1] * len(cs), "ops": [key + "." + c[0] for c in cs], "races": races(text)}
            recs.append(rec)
            src[rec["id"]] = (key, procs, text[:3000], rs if st != "ok" else None)
        ctx.log("calls of", key, len(cs), "histories", len(hist))
    rej = ctx.trace("Trace_Calls", recs, "histories of calls, in a row and at the same time", why="WhyCalls")
    for i, w in sorted(rej.items())[:25]:
        key, procs, text, rs = src[i]
        ctx.bad.append({"property": ctx.prop, "package": key, "op": "calls", "procs": procs, "races": text, "response": rs, "why": w, "spec": "Trace_Calls"})


def C02(ctx):
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANT Clean\nPROPERTY Ends\nCONSTANTS Items = %d\n Room = %d\n Rounds = 3\n Way = \"%s\""
    for way in ("deferred", "inline"):
        for cap in (1, 2):
            ctx.model("MC_Resources", cfg % (ctx.pick(3, 6), cap, way), "calls which give back what they take, whichever way they end: " + way)
    for way in ("last", "untold", "kept"):
        ok, text = ctx.tlc("MC_Resources", cfg % (4, 2, way))
        if ok or "Invariant Clean is violated" not in text:
            raise CheckError("specification MC_Resources does not tell %s apart:\n%s" % (way, text[-2000:]))
    ctx.prove("Proof_Resources", "nothing is held between calls, any number of items and calls, failures anywhere")
    ctx.parts.append({"spec": "MC_Resources", "what": "ways that keep what calls took are told apart", "behaviours": 3})
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(SOURCES, ex.map(ctx.build, SOURCES)))
    recs, src = [], {}
    for key in SOURCES:
        cs = harvest(ctx, key, ctx.pick(40, 150), all=True)
        if key == "step":
            cs += [("lex", {"lines": [], "eol": [10], "final": True, "path": p}) for p in ("/no/such/file", "/", "/proc/self/mem", "", ".", "x\u0000y")] * 3
            B = lambda t: list(t.encode())
            for bad in ("#1=A", "#1=", "#1=A('", "#1=", "#2=(", "#1=;"):      # reading them may fail
                for before, after in ((["#5=B('x',(1.,2.));"], []), ([], ["#7=C('y');"]), ([], [])):
                    cs.append(("lex", {"lines": [B(x) for x in before + [bad] + after], "eol": [10], "final": True, "path": ""}))
            for name in ("B_SPLINE_SURFACE_WITH_KNOTS", "ADVANCED_FACE", "EDGE_LOOP", "CLOSED_SHELL", "TOROIDAL_SURFACE", "FACE_OUTER_BOUND"):
                for many in (1, 3, 6):
                    for args in ([], [""], ["'x'"], ["'x'", "#99"]):
                        cs.append(("parse", {"table": [{"name": B("#%d" % i), "type": B(name), "args": [B(x) for x in args]} for i in range(1, many + 1)]}))
        hist = []
        for _ in range(ctx.pick(8, 60) * (4 if key in ("step", "glTF") else 1)):
            pool = [i for i in range(len(cs)) if not key == "step" or cs[i][1].get("path") or rng.random() < 0.5]
            pool = rng.sample(pool, min(len(pool), rng.choice([1, 4, 10])))
            hist.append((len(pool), pool + [rng.choice(pool) for _ in range(rng.choice([5, 20]))]))

        def run(t):
            n, (_, h) = t
            q = {"calls": [{"id": i + 1, "op": cs[i][0], "a": cs[i][1]} for i in h]}
            return ctx._run_part(bins[key], [{"id": 1, "op": "held", "a": q, "to": 120000}], "%s_held%d" % (key, n), 8, None, {"VERIF_BARE": "1"})[1]
        with ThreadPoolExecutor(NCPU) as ex:
            got = list(ex.map(run, enumerate(hist)))
        for (pas, h), rs in zip(hist, got):
            rec = {"id": len(recs) + 1, "status": status(rs), "pass": pas, "ops": [key + "." + c[0] + ("" if c[1].get("path", "-") == "-" else " of an unreadable file" if c[0] == "lex" and c[1]["path"] else "") for c in cs],
                   "start": {}, "steps": []}
            if rec["status"] == "ok":
                names = {}
                def short(x):
                    return names.setdefault(json.dumps(x), len(names))
                def say(o):
                    return {"open": o["Open"] or [], "runs": o["Runs"], "cwd": o["Cwd"], "env": short(o["Env"]), "around": short(o["Around"])}
                rec["start"] = say(rs["r"]["first"])
                rec["steps"] = [[s["K"], say(s["Held"])] for s in rs["r"]["steps"]]
            recs.append(rec)
            src[rec["id"]] = (key, [(cs[i][0], cs[i][1]) for i in h], rs)
        ctx.log("calls of", key, len(cs), "histories", len(hist))
    rej = ctx.trace("Trace_Resources", recs, "what processes hold after each of the calls they make", why="WhyHeld")
    for i, w in sorted(rej.items())[:25]:
        key, calls, rs = src[i]
        ctx.bad.append({"property": ctx.prop, "package": key, "op": "held", "calls": calls, "response": rs, "why": w, "spec": "Trace_Resources"})
