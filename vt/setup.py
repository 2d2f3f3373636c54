#!/usr/bin/env python3
"""setup_cmd: compiles the TLC overrides, parses every specification, checks
that the overrides agree with the TLA+ definitions, builds every driver."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
ctx = core.Ctx("setup", "quick", 1)
for f in sorted(os.listdir(core.SPEC)):
    if f.endswith(".tla") and not f.startswith("Proof_"):     # tlapm parses those
        r = subprocess.run(["java", "-cp", core.TLA, "tla2sany.SANY", f], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout or "Parsing or semantic analysis failed" in r.stdout:
            print(r.stdout); sys.exit(1)
ctx.model("MC_BigNum", open(os.path.join(core.SPEC, "MC_BigNum.cfg")).read(), "overridden arithmetic = TLA+ arithmetic")
for k in sorted(os.listdir(os.path.join(core.VERIF, "driver", "shims"))):
    ctx.build(k)
    ctx.log("driver", k)
print("setup done", ctx.notes)
