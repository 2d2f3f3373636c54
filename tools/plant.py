#!/usr/bin/env python3
"""plant.py FILE [id...]: turn planted-bug descriptions into /verif/seeded/<id>/.

FILE is a Python file defining BUGS, a list of dicts: id, property, pkg (directory of the
package the demonstration lives in), edits [(file, old, new)], test (Go source of the
demonstration, without the package clause), needs, breaks.  A bug is kept only if it
applies, changes at least one line of the original repository and no line added by a later
commit, builds, passes the stable tests, and its demonstration passes without and fails
with it.  No check reads what this writes."""
import json, os, re, shutil, subprocess, sys, tempfile

REPO, OUT = "/repo", "/verif/seeded"
NAMES = {"step": "step", "shape": "shape", "glTF": "glTF", "triangulate2": "triangulate2",
         "triangulate3": "triangulate3", "meshing": "mesh", "predicates": "predicates",
         "r3": "r3", "nurbs": "nurbs"}
DEMO = r'''#!/bin/bash
# Runs the demonstration beside this file inside the package, through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
cd "$repo/@MOD@" || exit 2
cp go.mod "$t/x.mod"; [ -f go.sum ] && cp go.sum "$t/x.sum"
export GOFLAGS="-mod=mod -modfile=$t/x.mod"
cat > "$t/overlay.json" <<J
{"Replace": {"$repo/@PKG@/zz_demo_test.go": "$here/demo_test.go"@EXTRA@}}
J
ulimit -v 16000000
mkdir "$t/run"
go test -c -vet=off -overlay "$t/overlay.json" -o "$t/demo" ./@SUB@ || exit 2
cd "$t/run" && timeout 120 "$t/demo" -test.count=1 -test.timeout=60s -test.run '^TestDemo$' >"$t/out" 2>&1
rc=$?
tail -n 25 "$t/out" | cut -c1-400
exit $rc
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)

def original_lines(f):
    """Line numbers of f at HEAD that are original, by blame."""
    out = sh(f"git blame -s -l {f}", REPO).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.startswith("^")}

def plant(b):
    d = tempfile.mkdtemp(prefix="plant_"); r = d + "/repo"
    try:
        sh(f"git worktree prune; git clone -q {REPO} {r}", "/")
        for f, old, new in b["edits"]:
            p = f"{r}/{f}"; s = open(p).read()
            if s.count(old) != 1: return f"edit of {f} matches {s.count(old)} times: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff -U3", r).stdout
        if not diff: return "empty patch"
        # removed lines must be original
        zero = sh("git diff -U0", r).stdout; f = None; removed = 0
        for l in zero.splitlines():
            if l.startswith("--- a/"): f = l[6:]; orig = original_lines(f)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                n = int(m.group(2) or 1)
                for i in range(int(m.group(1)), int(m.group(1)) + n):
                    removed += 1
                    if i not in orig: return f"{f}:{i} is not an original line"
        if not removed: return "no original line changed"
        for m in (".", "nurbs"):
            x = sh("export GOTOOLCHAIN=local GOPROXY=off GOWORK=off; cp go.mod /tmp/pl.mod; cp go.sum /tmp/pl.sum; GOFLAGS='-mod=mod -modfile=/tmp/pl.mod' go build ./...", f"{r}/{m}")
            if x.returncode: return "build: " + x.stderr[-400:]
        x = sh(f"/tmp/w/stable.sh {r}", "/")
        if "FAIL" in x.stdout: return x.stdout
        o = f"{d}/seed"; os.mkdir(o)
        mod = "nurbs" if b["pkg"] == "nurbs" else "."
        sub = "." if mod == "nurbs" else b["pkg"]
        extra = ""
        for t in os.listdir(f"{r}/{b['pkg']}"):
            if t.endswith("_test.go"): extra += f', "$repo/{b["pkg"]}/{t}": ""'
        open(o + "/demo_test.go", "w").write(f"package {NAMES[b['pkg']]}\n\n" + b["test"].strip() + "\n")
        sh("gofmt -w demo_test.go", o)
        demo = DEMO.replace("@MOD@", mod).replace("@PKG@", b["pkg"]).replace("@SUB@", sub).replace("@EXTRA@", extra)
        open(o + "/demo.sh", "w").write(demo); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)
        if sh("git apply --check " + o + "/patch.diff", REPO).returncode: return "patch does not apply to HEAD"
        x = sh(f"bash {o}/demo.sh", REPO)
        if x.returncode: return f"demo fails on the unchanged tree: {x.stdout[-800:]}{x.stderr[-800:]}"
        x = sh(f"bash {o}/demo.sh", r)
        if x.returncode == 0: return "demo passes with the patch"
        if x.returncode == 2 and "FAIL" not in x.stdout and "panic" not in x.stdout: return "demo broken: " + x.stdout + x.stderr[-500:]
        shutil.rmtree(f"{OUT}/{b['id']}", ignore_errors=True)
        shutil.move(o, f"{OUT}/{b['id']}")
        return "ok: " + " | ".join(x.stdout.strip().splitlines()[:2])[:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)

ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    print(b["id"], plant(b), flush=True)
