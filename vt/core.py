"""Building the driver from /repo's working tree, running it, running TLC,
and reporting.  Used by every check; keeps nothing outside a scratch dir."""
import atexit, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")   # (only for developing the checks)
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

PKGS = {  # key: (module dir, module path, package dir)
    "step": (".", "geGoMetry", "step"),
    "shape": (".", "geGoMetry", "shape"),
    "glTF": (".", "geGoMetry", "glTF"),
    "triangulate2": (".", "geGoMetry", "triangulate2"),
    "triangulate3": (".", "geGoMetry", "triangulate3"),
    "meshing": (".", "geGoMetry", "meshing"),
    "predicates": (".", "geGoMetry", "predicates"),
    "r3": (".", "geGoMetry", "r3"),
    "nurbs": ("nurbs", "nurbs", ""),
}


class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s/%d" % (prop, tier, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.work, 0o755)
        atexit.register(shutil.rmtree, self.work, True)
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.parts = [], [], []
        self.assumptions = []
        self.bad = []            # (request, response, why)
        self.bins = {}
        self.n = 0
        self.java = None

    quick = property(lambda s: s.tier == "quick")

    def pick(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def scratch(self, name):
        p = os.path.join(self.work, name)
        os.makedirs(p, exist_ok=True)
        return p

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def build(self, key, race=False):
        """Builds the driver for one package from the working tree. Shims that
        no longer fit the package (a renamed unexported function, say) are
        left out; what they cover is then not covered by this run."""
        if (key, race) in self.bins:
            return self.bins[key, race]
        moddir, mod, pkg = PKGS[key]
        root = os.path.join(REPO, moddir) if moddir != "." else REPO
        b = self.scratch("build_" + key + ("_race" if race else ""))
        shdir = os.path.join(VERIF, "driver", "shims", key)
        shims = sorted(f for f in os.listdir(shdir) if f.endswith(".go"))
        zz = os.path.join(root, "zzverif")
        if os.path.exists(zz):
            raise CheckError("unexpected " + zz)
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(root, f)):
                shutil.copy(os.path.join(root, f), os.path.join(b, "m" + f[2:]))
        def put(name, text):
            p = os.path.join(b, name)
            with open(p, "w") as fh:
                fh.write(text)
            return p
        src = open(os.path.join(VERIF, "driver", "zzverif.go")).read()
        repl = {os.path.join(zz, "zzverif.go"): put("zzverif.go", src)}
        pkgpath = mod + ("/" + pkg if pkg else "")
        tm = open(os.path.join(VERIF, "driver", "main.go.tmpl")).read()
        repl[os.path.join(zz, "cmd", "main.go")] = put("main.go", tm.replace("@PKG@", pkgpath).replace("@MOD@", mod))
        loc = {}
        for s in shims:
            t = open(os.path.join(shdir, s)).read().replace("@MOD@", mod)
            dst = os.path.join(root, pkg, "zz_verif_" + s)
            loc[s] = dst
            repl[dst] = put("shim_" + s, t)
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -modfile=" + os.path.join(b, "m.mod"),
                   HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
        env.setdefault("GOCACHE", "/root/.cache/go-build")
        out = os.path.join(b, "driver")
        dropped = []
        for _ in range(len(shims) + 2):
            ov = put("overlay.json", json.dumps({"Replace": repl}))
            r = subprocess.run(["go", "build"] + ["-race"] * race + ["-gcflags=-e", "-overlay", ov, "-o", out, "./zzverif/cmd"], cwd=root, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            gone = [s for s in shims if s not in dropped and re.search(r"shim_%s:\d|zz_verif_%s:\d" % ((re.escape(s),) * 2), r.stdout)]
            if not gone and race:
                return None
            if not gone:
                raise CheckError("driver for %s does not build:\n%s" % (key, r.stdout[-3000:]))
            for s in gone:
                dropped.append(s)
                del repl[loc[s]]
        else:
            raise CheckError("driver for %s does not build" % key)
        if dropped:
            self.notes.append("shims that do not fit the current code of %s, not covered: %s" % (key, ", ".join(dropped)))
        self.bins[key, race] = out
        return out

    # ------------------------------------------------------------- running
    def _run_part(self, binary, reqs, tag, mem_gb, as_user=None, more_env=None, argv=()):
        """Serves reqs one after another; restarts after a hang or crash."""
        d = self.scratch("run_%s" % tag)
        scratch = os.path.join(d, "scratch")
        os.makedirs(scratch, exist_ok=True)
        os.chmod(d, 0o755); os.chmod(scratch, 0o777)
        res, left, crashes, hangs = {}, list(reqs), 0, 0
        while left:
            fi, fo, fs = (os.path.join(d, x) for x in ("in", "out", "stdout"))
            with open(fi, "w") as fh:
                for q in left:
                    fh.write(json.dumps(q) + "\n")
            open(fo, "w").close()
            os.chmod(fo, 0o666)
            env = dict(os.environ, VERIF_IN=fi, VERIF_OUT=fo, VERIF_STDOUT=fs, VERIF_SCRATCH=scratch, TMPDIR=scratch, GOMEMLIMIT="%dMiB" % (mem_gb * 1024), GOMAXPROCS="2")
            env.update(more_env or {})
            with open(fs, "ab") as so, open(os.path.join(d, "stderr"), "wb") as se:
                os.chmod(fs, 0o666)
                def pre():
                    if not (more_env or {}).get("GORACE"):
                        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    if as_user is not None:
                        os.setgroups([]); os.setgid(as_user); os.setuid(as_user)
                p = subprocess.Popen([binary] + list(argv), stdout=so, stderr=se, env=env, preexec_fn=pre, cwd=scratch)
                limit = 60 + sum(q.get("to", 10000) for q in left) / 1000.0
                try:
                    rc = p.wait(limit)
                except subprocess.TimeoutExpired:
                    p.kill(); p.wait()
                    raise CheckError("driver did not end")
            got = set()
            with open(fo) as fh:
                for line in fh:
                    if line.endswith("\n"):
                        r = json.loads(line)
                        res[r["id"]] = r
                        got.add(r["id"])
            left = [q for q in left if q["id"] not in got]
            if rc == 0 and not left:
                break
            if rc == 3 and got:      # a hang, already answered
                hangs += 1
                if hangs >= 4:       # enough to look at; the others are not run
                    res.update((q["id"], {"id": q["id"], "none": True}) for q in left)
                    break
                continue
            if not left:
                break
            crashes += 1
            err = open(os.path.join(d, "stderr"), errors="replace").read()
            q = left.pop(0)
            res[q["id"]] = {"id": q["id"], "ok": False, "crash": "exit %s: %s" % (rc, err[:300])}
            if crashes >= 20:
                res.update((q["id"], {"id": q["id"], "none": True}) for q in left)
                break
        shutil.rmtree(d, True)
        return res

    def call(self, key, reqs, to=10000, mem_gb=4, as_user=None):
        """reqs: list of (op, args). Returns the list of responses in order.
        None for operations the driver does not offer."""
        binary = self.build(key)
        full = []
        for op, a in reqs:
            self.n += 1
            full.append({"id": self.n, "op": op, "a": a, "to": to})
        k = max(1, min(NCPU, len(full) // 20))
        parts = [full[i::k] for i in range(k)]
        res = {}
        with ThreadPoolExecutor(k) as ex:
            for r in ex.map(lambda t: self._run_part(binary, t[1], "%d_%d" % (self.n, t[0]), mem_gb, as_user), enumerate(parts)):
                res.update(r)
        out = []
        for q in full:
            r = res.get(q["id"])
            if r is None:
                raise CheckError("no answer for a request")
            if r.get("none"):
                r = None
            out.append(r)
        return out

    # ----------------------------------------------------------------- TLC
    def _overrides(self):
        if self.java is None:
            d = self.scratch("cls")
            r = subprocess.run(["javac", "-cp", TLA, "-d", d] + [os.path.join(VERIF, "java", f) for f in ("BigNumOverrides.java", "TraceOverrides.java")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("javac: " + r.stdout[-2000:])
            self.java = d
        return self.java

    def tlc(self, module, cfg, env=None, timeout=800, extra=(), heap="6g", workers=None, simulate=None):
        """Runs TLC on spec/<module>.tla with the given configuration text.
        Returns (ok, output). ok: TLC completed without an error."""
        cls = self._overrides()
        self.n += 1
        d = self.scratch("tlc_%d" % self.n)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg + ("" if "CHECK_DEADLOCK" in cfg else "\nCHECK_DEADLOCK FALSE\n"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:ParallelGCThreads=4", "-XX:TieredStopAtLevel=4",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNumOverrides:TraceOverrides",
               "-Djava.io.tmpdir=" + d, "-cp", cls + ":" + TLA, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"),
               "-workers", str(workers or NCPU), "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        outp = os.path.join(d, "out")
        try:
            with open(outp, "w") as fh:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not end in %d s" % (module, timeout))
        text = open(outp, errors="replace").read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        ok = r.returncode == 0 and "No error has been found" in text
        shutil.rmtree(d, True)
        return ok, text

    def model(self, module, cfg, what, **kw):
        """Exhaustive check of a specification. Its failure is an error of the
        machinery (the specification is wrong), never a verdict on the code.
        Returns the behaviours it printed (OUT lines)."""
        t = time.time()
        s0 = self.states
        ok, text = self.tlc(module, cfg, **kw)
        if not ok:
            msg = "\n".join(l for l in text.splitlines() if not l.startswith('"OUT|'))
            raise CheckError("specification %s fails its own check:\n%s" % (module, msg[-4000:]))
        outs = [json.loads(json.loads(l)[4:]) for l in text.splitlines() if l.startswith('"OUT|')]
        self.parts.append({"spec": module, "what": what, "distinct_states": self.states - s0, "behaviours": len(outs), "s": round(time.time() - t, 1)})
        self.log("model %s: %d states, %d behaviours (%.1fs)" % (module, self.states - s0, len(outs), time.time() - t))
        return outs

    def prove(self, module, what):
        """Has tlapm prove the theorems of spec/<module>.tla, which state for
        every size what model() checks up to a bound. They are about the
        specification alone: a prover that is missing, or out of time on a
        loaded machine, is noted and decides nothing."""
        t = time.time()
        d = self.scratch("proof_" + module)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        text = ""
        try:
            for stretch in ("1", "4"):
                r = subprocess.Popen(["tlapm", "--cleanfp", "--threads", "4", "--stretch", stretch, "--cache-dir", os.path.join(d, "cache"), module + ".tla"],
                                     cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
                try:
                    text = r.communicate(timeout=self.pick(60, 300))[0]
                finally:
                    try:
                        os.killpg(r.pid, signal.SIGKILL)
                    except OSError:
                        pass
                if r.returncode == 0:
                    break
        except (OSError, subprocess.TimeoutExpired) as e:
            text = str(e)
        m = re.search(r"All (\d+) obligations? proved", text)
        if m:
            self.parts.append({"spec": module, "what": what + " (proof, any size)", "obligations_proved": int(m.group(1)), "s": round(time.time() - t, 1)})
            self.log("proof %s: %s obligations proved (%.1fs)" % (module, m.group(1), time.time() - t))
        else:
            self.notes.append("%s: not proved in this run (%s)" % (module, (re.findall(r"\d+/\d+ obligations failed", text) or [text[-200:]])[-1]))
            self.log("proof %s: not proved in this run" % module)
        shutil.rmtree(d, True)

    def trace(self, module, records, what, why="WhyRec", accept=False, cfg=None, count=True, **kw):
        """Validates recorded executions against spec/<module>.tla.
        Returns {record id: why} of the rejected ones. With accept=True the
        specification searches for an explanation of each record and prints
        ACCEPT for those that have one."""
        if not records:
            return {}
        t = time.time()
        self.n += 1
        p = os.path.join(self.work, "trace_%d.ndjson" % self.n)
        with open(p, "w") as fh:
            for r in records:
                fh.write(json.dumps(r, separators=(",", ":")) + "\n")
        s0 = self.states
        c = cfg or "CONSTANT Why <- %s\nSPECIFICATION Spec" % why
        ok, text = self.tlc(module, c, env={"TRACE": p}, **kw)
        if not ok:
            msg = "\n".join(l for l in text.splitlines() if "REJECT|" not in l and "ACCEPT|" not in l)
            keep = os.environ.get("VERIF_KEEP")
            if keep:
                shutil.copy(p, keep)
            raise CheckError("TLC failed on %s:\n%s" % (module, msg[-4000:]))
        (shutil.copy(p, os.environ["VERIF_KEEP"]) if os.environ.get("VERIF_KEEP") else None); os.remove(p)
        rej = {}
        if accept:
            acc = set(int(x) for x in re.findall(r'"ACCEPT\|(\d+)"', text))
            rej = {r["id"]: "no behaviour of the specification explains the recorded execution" for r in records if r["id"] not in acc}
        else:
            for m in re.finditer(r'"REJECT\|(\d+)\|(.*)"', text):
                rej[int(m.group(1))] = m.group(2).replace('\\"', '"')
            seen = self.states - s0
            if seen < len(records):
                raise CheckError("TLC visited %d states for %d records" % (seen, len(records)))
        if count:
            self.validated += len(records)
            self.parts.append({"spec": module, "what": what, "records": len(records), "distinct_states": self.states - s0, "rejected": len(rej), "s": round(time.time() - t, 1)})
        self.log("trace %s [%s]: %d records, %d rejected (%.1fs)" % (module, what, len(records), len(rej), time.time() - t))
        return rej

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 1500 else s[:1500] + "...")


# -------------------------------------------------------------- reporting
def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


def finish(ctx, level="model_checking"):
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.validated,
                       "samples": ctx.samples or ["(none)"], "parts": ctx.parts, "notes": ctx.notes},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not ctx.bad:
        print("OK property=%s tier=%s seed=%d states=%d validated=%d wall=%.1fs" % (ctx.prop, ctx.tier, ctx.seed, ctx.states, ctx.validated, time.time() - ctx.t0))
        return 0
    d = os.path.join(VERIF, "out", "replay")
    os.makedirs(d, exist_ok=True)
    for i, b in enumerate(ctx.bad[:5]):
        p = os.path.join(d, "%s-%d.json" % (ctx.prop, i))
        with open(p, "w") as fh:
            json.dump(b, fh)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        print("  why:", str(b.get("why"))[:500])
    return 1


# ---------------------------------------------------------------- conformance
def status(resp):
    if resp.get("ok"):
        return "ok"
    if resp.get("hang"):
        return "hang"
    if "crash" in resp:
        return "crash"
    return "panic"


def conform(ctx, key, cases, module, mk, what, why="WhyRec", to=10000, accept=False, cfg=None, keep=25, **kw):
    """cases: list of (op, args, meta). Calls the code, makes one record per
    response with mk(args, meta, resp-or-None-on-failure, status) and has TLC
    judge them. Hangs and crashes are run again, alone and with more time, before they count."""
    todo = [(op, a) for op, a, _ in cases]
    resps = ctx.call(key, todo, to=to)
    again = [i for i, r in enumerate(resps) if r is not None and status(r) in ("hang", "crash")]
    sure = 0
    for k, i in enumerate(again):
        resps[i] = ctx.call(key, [todo[i]], to=to * 4, mem_gb=12)[0] if k < 6 and sure < 2 else None
        sure += resps[i] is not None and status(resps[i]) in ("hang", "crash")
    recs, src = [], {}
    for (op, a, meta), r in zip(cases, resps):
        if r is None:
            continue
        st = status(r)
        rec = mk(a, meta, r.get("r") if st == "ok" else None, st)
        if rec is None:
            continue
        rec["id"] = len(recs) + 1
        rec["status"] = st
        recs.append(rec)
        src[rec["id"]] = (op, a, meta, r)
    if len(recs) < len(cases):
        ctx.notes.append("%s: %d of %d cases not runnable" % (what, len(cases) - len(recs), len(cases)))
    rej = ctx.trace(module, recs, what, why=why, accept=accept, cfg=cfg, **kw)
    for r in recs[:1]:
        ctx.sample({"what": what, "input": src[r["id"]][1], "output": src[r["id"]][3]})
    for i, w in sorted(rej.items())[:keep]:
        op, a, meta, r = src[i]
        ctx.bad.append({"property": ctx.prop, "what": what, "package": key, "op": op, "args": a, "meta": meta, "response": r, "why": w, "spec": module})
    return recs, rej
