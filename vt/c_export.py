"""X01, X02: the glTF exporter."""
import base64, json, struct
from fractions import Fraction
from core import conform
from c_meshes import num


def exact(x):
    f = Fraction(x)
    return [num(f.numerator), f.denominator.bit_length() - 1]


# ------------------------------------------------------------ glTF reader
NOACC = {"present": False, "ctype": 0, "type": "", "count": 0, "normalized": False, "offset": 0, "viewOffset": 0, "viewLength": 0, "stride": 0, "elems": [],
         "min": [], "max": [], "minExact": [], "maxExact": []}
SIZES = {5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
COMPS = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}
BADFILE = {"ok": False, "bytes": [], "json": [0, 0], "bin": [0, 0], "glb": False, "bufferLength": 0, "pos": NOACC, "idx": NOACC, "col": NOACC,
           "doc": {"meshes": 0, "primitives": 0, "shown": 0, "plain": False, "mode": 0}}


def halves(b):
    return [b[2] + 256 * b[3], b[0] + 256 * b[1]]


def bits32(x):
    try:
        return halves(struct.pack("<f", x))
    except (OverflowError, struct.error):
        return [32640, 0]


def read_gltf(data, small=4000):
    """structure and accessor elements of a glTF file, for spec/Gltf.tla"""
    f = dict(BADFILE)
    try:
        if data[:4] == b"glTF":
            jl = struct.unpack("<I", data[12:16])[0]
            doc = json.loads(data[20:20 + jl])
            bl = struct.unpack("<I", data[20 + jl:24 + jl])[0]
            if 28 + jl + bl > len(data):
                return f
            f.update(glb=True, json=[20, jl], bin=[28 + jl, bl])
            bufs = [data[28 + jl:28 + jl + bl]] + [None] * 8
        else:
            doc = json.loads(data)
            bufs = []
        for i, b in enumerate(doc.get("buffers", [])):
            u = b.get("uri")
            if u:
                if not u.startswith("data:"):
                    return f
                d = base64.b64decode(u.split(",", 1)[1])
                bufs[i:i + 1] = [d]
            if bufs[i] is None or b["byteLength"] > len(bufs[i]):
                return f
            bufs[i] = bufs[i][:b["byteLength"]]
        if doc.get("asset", {}).get("version") != "2.0":
            return f
        nodes = doc.get("nodes", [])
        shown, plain = 0, True
        todo = list(doc["scenes"][doc.get("scene", 0)].get("nodes", []))
        n = 0
        while todo and n < 1000:
            n += 1
            nd = nodes[todo.pop()]
            todo += nd.get("children", [])
            shown += "mesh" in nd
            if nd.get("matrix", [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]) != [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1] or \
               nd.get("translation", [0, 0, 0]) != [0, 0, 0] or nd.get("scale", [1, 1, 1]) != [1, 1, 1] or nd.get("rotation", [0, 0, 0, 1]) != [0, 0, 0, 1] or nd.get("mesh", 0) != 0:
                plain = False
        ms = doc.get("meshes", [])
        prims = ms[0]["primitives"]
        p = prims[0]
        f["doc"] = {"meshes": len(ms), "primitives": len(prims), "shown": shown, "plain": plain, "mode": p.get("mode", 4)}
        def acc(i):
            if i is None:
                return NOACC
            a = doc["accessors"][i]
            v = doc["bufferViews"][a["bufferView"]]
            if a.get("sparse") or v.get("buffer", 0) != 0:
                return NOACC
            r = {"present": True, "ctype": a["componentType"], "type": a["type"], "count": a["count"], "normalized": a.get("normalized", False), "offset": a.get("byteOffset", 0),
                 "viewOffset": v.get("byteOffset", 0), "viewLength": v["byteLength"], "stride": v.get("byteStride", 0), "elems": [],
                 "min": [bits32(x) for x in a.get("min", [])], "max": [bits32(x) for x in a.get("max", [])],
                 "minExact": [exact(x) for x in a.get("min", [])], "maxExact": [exact(x) for x in a.get("max", [])]}
            sz, nc = SIZES[r["ctype"]], COMPS[r["type"]]
            st = r["stride"] or sz * nc
            b, at = bufs[0], r["offset"] + r["viewOffset"]
            if r["count"] < 1 or at + (r["count"] - 1) * st + sz * nc > len(b):
                return NOACC
            for k in range(r["count"]):
                e = []
                for c in range(nc):
                    x = b[at + k * st + c * sz:at + k * st + (c + 1) * sz]
                    e.append(x[0] if sz == 1 else x[0] + 256 * x[1] if sz == 2 else halves(x))
                r["elems"].append(e)
            return r
        f["pos"], f["idx"], f["col"] = acc(p["attributes"].get("POSITION")), acc(p.get("indices")), acc(p["attributes"].get("COLOR_0"))
        f["bufferLength"] = len(bufs[0])
        if f["glb"] and len(data) <= small:
            f["bytes"] = list(data)
        f["ok"] = True
        return f
    except (ValueError, KeyError, IndexError, TypeError, struct.error):
        return dict(BADFILE)


# ------------------------------------------------------------- generators
def coord(rng, style):
    if style == "int":
        return float(rng.randrange(-100, 101))
    if style == "single":
        return struct.unpack("<f", struct.pack("<f", rng.uniform(-1e3, 1e3)))[0]
    if style == "tie":       # half way between two singles, or next to it
        x = struct.unpack("<f", struct.pack("<f", rng.choice([1, -1]) * rng.choice([1.0, rng.uniform(0.5, 2), 2.0 ** rng.randrange(-20, 20)])))[0]
        b = struct.unpack("<I", struct.pack("<f", x))[0]
        y = struct.unpack("<f", struct.pack("<I", b + 1))[0]
        m = (x + y) / 2
        return rng.choice([m, m, m * (1 + 2 ** -52), m * (1 - 2 ** -52)])
    if style == "wide":
        return rng.choice([1, -1]) * 10 ** rng.uniform(-44, 38)
    if style == "near":
        return 1000.0 + rng.uniform(0, 1e-3)
    if style == "zero":
        return rng.choice([0.0, -0.0, 1.0, -1.0])
    return rng.gauss(0, 10)


def gen_mesh(rng, nv=None, ni=None):
    nv = nv or rng.choice([1, 2, 3, 3, 4, 5, 8, 12, 20, 50])
    style = rng.choice(["int", "single", "tie", "wide", "near", "zero", "gauss", "mix"])
    st = lambda: rng.choice(["int", "single", "tie", "wide", "gauss"]) if style == "mix" else style
    v = [[coord(rng, st()) for _ in range(3)] for _ in range(nv)]
    if rng.random() < 0.2:       # same point again, and a flat axis
        v[-1] = list(v[0])
        k = rng.randrange(3)
        for p in v:
            p[k] = v[0][k]
    if rng.random() < 0.15:      # one side only, away from zero
        v = [[abs(c) + 1 for c in p] for p in v] if rng.random() < 0.5 else [[-abs(c) - 1 for c in p] for p in v]
    ni = ni if ni is not None else rng.choice([1, 1, 2, 4, 12, 40])
    return {"v": v, "i": [rng.randrange(nv) for _ in range(3 * ni)], "aux": rng.random() < 0.3}


def wire(m):
    return {"v": [[repr(c) for c in p] for p in m["v"]], "i": m["i"], "aux": m["aux"]}


def spec_mesh(m):
    return {"V": [[exact(float(c)) for c in p] for p in m["v"]], "I": m["i"]}


def mk_file(a, meta, r, st):
    m = a["meshes"][0]
    rec = {"mesh": spec_mesh(m), "failed": False, "same": True, "file": BADFILE}
    if r:
        s = r["steps"][-1]
        rec.update(failed=s["failed"] != "" or len(s["files"]) != 1, same=s["same"])
        if s["files"]:
            rec["file"] = read_gltf(base64.b64decode(r["contents"][s["files"][0][1]]))
    return rec


def X01(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(500, 5000)):
        cases.append(("history", {"meshes": [wire(gen_mesh(rng))], "dirs": [], "steps": [{"act": "export", "path": "a.glb", "mesh": 0}], "final": True}, ""))
    for nv in (255, 256, 257, 1000):       # around the limits of narrower index types
        m = gen_mesh(rng, nv, 300)
        m["i"][:3] = [nv - 1, 0, nv - 2]
        cases.append(("history", {"meshes": [wire(m)], "dirs": [], "steps": [{"act": "export", "path": "a.glb", "mesh": 0}], "final": True}, ""))
    for nv in ctx.pick((65535, 65537, 131075), (65534, 65535, 65536, 65537, 70001, 131073, 262147)):
        v = [[float(i % 300), float(i // 300), 0.5 * (i % 7)] for i in range(nv)]
        m = {"v": v, "i": [nv - 1, 0, nv - 2, nv - 3, 65533, 65534] + [rng.randrange(nv) for _ in range(999)], "aux": False}
        cases.append(("history", {"meshes": [wire(m)], "dirs": [], "steps": [{"act": "export", "path": "a.glb", "mesh": 0}], "final": True}, ""))
    # index lists as long as real tessellations
    m = gen_mesh(rng, 400, 22000)
    cases.append(("history", {"meshes": [wire(m)], "dirs": [], "steps": [{"act": "export", "path": "a.glb", "mesh": 0}], "final": True}, ""))
    cases.reverse()
    conform(ctx, "glTF", cases, "Trace_Gltf", mk_file, "exported files read back", why="WhyFile", to=30000)
    ctx.assumptions += ["coordinates in single-precision range, at least one vertex and one triangle", "container and accessor structure are judged from the bytes for files up to 4000 bytes, from an independent reader's elements for larger ones"]


# -------------------------------------------------------------------- X02
GOOD = ["a-file", "a.glb", "b.gltf", "c", "sub/d.glb", "A.GLB", "end ", " start.glb", "a b.glb", "a.glb.tmp", "a%s.glb", "sub/.d.glb", "~", "a:b*?.glb", "Z\u00e9\u65e5.glb", "n" * 200]
BAD = ["dir", "missing/x.glb", "a-file/x.glb", "/dev/full", "", "none/", "a-file/", "sub/"]


def distinct_meshes(rng, n):
    ms, seen = [], set()
    while len(ms) < n:
        m = gen_mesh(rng, rng.choice([1, 3, 4, 9, 20]), rng.choice([1, 2, 8]))
        k = json.dumps([[[0, 0] if bits32(c) == [32768, 0] else bits32(c) for c in p] for p in m["v"]]) + str(m["i"])      # the zeros are one value
        if k not in seen:
            seen.add(k)
            ms.append(m)
    return ms


def mk_history(a, meta, r, st):
    rec = {"meshes": [spec_mesh(m) for m in a["meshes"]], "contents": [], "steps": [], "good": GOOD, "bad": BAD}
    if r:
        order = {}
        for k, c in r["contents"].items():
            order[k] = len(order) + 1
            rec["contents"].append(read_gltf(base64.b64decode(c)))
        for s, o in zip(a["steps"], r["steps"]):
            rec["steps"].append({"act": s["act"], "path": s["path"], "mesh": s["mesh"] + 1, "short": s.get("room", 0) > 0, "failed": o["failed"] != "", "same": o["same"], "files": [[n, order[k]] for n, k in o["files"]]})
    return rec


CFG = "CONSTANTS Paths <- TPaths\nWritable <- TWritable\nMeshes <- TMeshes\nSPECIFICATION Spec\nINVARIANT HoldsLast\nINVARIANT Explained"


def lengths(ctx, groups):
    """how long the exported files are"""
    reqs = [("history", {"meshes": [wire(m) for m in ms], "dirs": [], "steps": [{"act": "export", "path": str(i), "mesh": i, "data": 0} for i in range(len(ms))], "final": True})
            for ms in groups]
    out = []
    for ms, rs in zip(groups, ctx.call("glTF", reqs)):
        try:
            r = rs["r"]
            by = dict(r["steps"][-1]["files"])
            out.append([len(base64.b64decode(r["contents"][by[str(i)]])) for i in range(len(ms))])
        except Exception:
            out.append([900] * len(ms))
    return out


def room(rng, n):
    """less room than a file of n bytes takes, mostly"""
    return max(1, rng.choice([n - 1, n - rng.randrange(1, 40), rng.randrange(1, n + 1), n // 2, 1, 12, 20, 4096, n, n + 1]))


def X02(ctx):
    rng = ctx.rng
    outs = ctx.model("MC_Export", "CONSTANTS Paths <- P\nWritable <- W\nMeshes <- Ms\nDepth = %d Emit = TRUE\nSPECIFICATION Spec\nINVARIANT HoldsLast\nINVARIANT Follows\nINVARIANT Output\nPROPERTY OnePath" % ctx.pick(3, 4),
                     "all short histories of exports: each path holds its last export")
    ctx.prove("Proof_Export", "a path holds its last export, no step touches two paths")
    seen, hists = set(), []
    for o in outs:
        k = str(o["hist"])
        if k not in seen:
            seen.add(k)
            hists.append(o["hist"])
    rng.shuffle(hists)
    cases = []
    dirs = ["sub", "dir"]
    hists = hists[:ctx.pick(600, 8000)]
    groups = [distinct_meshes(rng, 2) for _ in hists]
    for h, ms, ns in zip(hists, groups, lengths(ctx, groups)):
        g = rng.sample(GOOD[1:], 2)
        names = {"a": g[0], "b": g[1], "bad": rng.choice([b for b in BAD if "a-file" not in b])}
        steps = [{"act": e["act"], "path": names[e["path"]], "mesh": 1 if e["mesh"] == "m2" else 0, "data": rng.choice([0, 1, 100, 20000])} for e in h]
        for s in steps:
            if s["act"] == "short":
                s.update(act="export", room=room(rng, ns[s["mesh"]]))
        cases.append(("history", {"meshes": [wire(m) for m in ms], "dirs": dirs, "steps": steps}, ""))
    conform(ctx, "glTF", cases, "Trace_Export", mk_history, "histories of MC_Export replayed", accept=True, cfg=CFG)
    cases = []
    groups = [distinct_meshes(rng, rng.choice([1, 2, 4, 6])) for _ in range(ctx.pick(150, 1500))]
    for ms, ns in zip(groups, lengths(ctx, groups)):
        steps = [{"act": "plant", "path": "a-file", "mesh": 0, "data": 10}]
        good = rng.sample(GOOD[1:], rng.choice([1, 2, 4]))
        for _ in range(rng.choice([2, 5, 10, 25])):
            r = rng.random()
            if r < 0.7:
                i = rng.randrange(len(ms))
                steps.append({"act": "export", "path": rng.choice(good), "mesh": i, "data": 0})
                if rng.random() < 0.2:
                    steps[-1]["room"] = room(rng, ns[i])
            elif r < 0.85:
                steps.append({"act": "export", "path": rng.choice(BAD), "mesh": rng.randrange(len(ms)), "data": 0})
            elif r < 0.95:
                steps.append({"act": "plant", "path": rng.choice(good), "mesh": 0, "data": rng.choice([0, 1, 500, 3000, 100000])})
            else:
                steps.append({"act": "delete", "path": rng.choice(good), "mesh": 0, "data": 0})
        cases.append(("history", {"meshes": [wire(m) for m in ms], "dirs": dirs, "steps": steps}, ""))
    conform(ctx, "glTF", cases, "Trace_Export", mk_history, "random histories of exports", accept=True, cfg=CFG)
    ctx.assumptions += ["unwritable destinations: a directory, a missing directory, a file used as a directory, a full device, the empty name; files that cannot grow beyond some length"]
