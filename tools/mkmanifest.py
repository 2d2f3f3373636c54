#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts TLC, the JSON trace reader and the exact-integer override of BigNum.tla (itself model-checked against its TLA+ definition), and the driver's encoding of values."
T = {
 "S01": ("TLA+ lexer machine model-checked; its layouts replayed, recorded reads judged by TLC", "Exhaustive over all layouts of small files in the model; replayed and random files on the code are a sample."),
 "S02": ("TLA+ byte scanner model-checked over all short texts, replayed; recorded splits judged by TLC", "Exhaustive over short argument texts (every text replayed into the code); larger ones sampled. The scanner is proved for texts of any length with tlapm."),
 "S03": ("TLA+ inference-loop machine model-checked over all small reference graphs; recorded runs validated as its behaviours", "Exhaustive over small graphs and orders in the model and replayed; larger ones sampled; the code's own map order varies per run. The machine's guarantees and termination are proved for any keys and references with tlapm."),
 "S04": ("TLA+ specification of each handler's report; recorded reports judged by TLC", "Sampled over generated instances and tables."),
 "M01": ("TLA+ triangle-layout machine model-checked at all small resolutions; recorded meshes judged by TLC", "Exhaustive over small resolutions in the model and replayed; larger resolutions, radii and centres sampled."),
 "M02": ("TLA+ specification of sample positions over exact numbers; recorded vertices judged by TLC", "Positions compared to about nine digits; resolutions, radii and centres sampled."),
 "M03": ("TLA+ closed-surface specification (layout machine model-checked); recorded meshes judged by TLC", "Every recorded mesh is judged in full (all edges); resolutions sampled. The layout's closedness is proved for every resolution with tlapm."),
 "M04": ("TLA+ fan specification (layout machine model-checked); recorded meshes judged by TLC", "Every recorded mesh is judged in full; resolutions sampled."),
 "M05": ("TLA+ specification of normals and texture coordinates; recorded meshes judged by TLC", "Compared to about nine digits; resolutions sampled."),
 "X01": ("TLA+ specification of the exported file's bytes (glTF, IEEE rounding); recorded files judged by TLC", "Every recorded file is judged byte by byte; meshes sampled."),
 "X02": ("TLA+ file-system machine model-checked over all short export histories, replayed and judged by TLC", "Exhaustive over short histories in the model, replayed into the code; longer ones sampled. The machine's guarantee is proved for any paths and histories with tlapm."),
 "D01": ("TLA+ sweep-hull and flip machine model-checked over all small grid sets; recorded triangulations judged by TLC with exact arithmetic", "Exhaustive over small grid sets (each replayed into the code); larger sets sampled. Exact for whole numbers, up to rounding otherwise."),
 "D02": ("TLA+ sweep on half-edge arrays and a linked hull model-checked over small grid sets; recorded triangulations judged by TLC, model's point sets replayed", "Exhaustive over small grid sets in the model. Every recorded triangulation is judged in full; larger point sets sampled."),
 "D03": ("TLA+ monotone-chain machine proved equal to the hull's meaning over all grid subsets by TLC, replayed; recorded hulls judged by TLC", "Exhaustive over grid subsets (each replayed); larger sets sampled."),
 "D04": ("TLA+ specification of refusal; all short point lists over small grids and random ones judged by TLC", "Exhaustive over short lists on small grids; collinear, repeated and larger inputs sampled."),
 "D05": ("TLA+ relation between runs on transformed points, judged by TLC", "Sampled over point sets and compositions of transformations. The invariances of turns and circles are proved for all whole numbers with tlapm."),
 "D06": ("TLA+ validation scan model-checked against its meaning over all small corruptions, replayed; recorded validations judged by TLC", "Exhaustive over corruptions of two triangles in the model; larger ones sampled over triangulations and corruptions of one or two parts."),
 "D07": ("TLA+ definitions of planar measures model-checked against their meaning on a grid, replayed; recorded measures judged by TLC with exact rationals", "Exhaustive over small grids in the model and replayed; larger coordinates sampled; signs exact, sizes up to rounding."),
 "B01": ("TLA+ incremental insertion machine model-checked in every order; recorded face lists judged by TLC against the empty-sphere definition", "Exhaustive over subsets of a small point set and orders of insertion in the model; other point sets sampled."),
 "B02": ("TLA+ gathering and enclosing machine model-checked; recorded enclosures judged by TLC exactly", "Exhaustive over small lists in the model and replayed; larger ones sampled."),
 "B03": ("TLA+ orientation and sphere determinants model-checked against their meaning on a lattice; recorded signs judged by TLC", "Exhaustive over lattice tetrahedra and points in the model, replayed; larger coordinates sampled."),
 "B04": ("TLA+ containment model-checked against barycentric meaning on a lattice; recorded answers judged by TLC", "Exhaustive over lattice tetrahedra and points in the model, replayed; larger coordinates sampled. The volume identities behind it are proved for all whole numbers with tlapm."),
 "B05": ("TLA+ simplex selection machine model-checked; recorded simplices and distances judged by TLC", "Exhaustive over small lists in the model, replayed; larger lists sampled."),
 "B06": ("TLA+ splitting machine model-checked; recorded meshes judged by TLC", "The splitting is exhaustive over one tetrahedron; points sampled."),
 "B07": ("TLA+ scan machine model-checked; recorded answers judged by TLC exactly", "Exhaustive over small lists in the model, replayed; larger ones sampled. The scan is proved for any list with tlapm."),
 "N01": ("TLA+ B-spline definition, triangular scheme and corner cutting machines model-checked equal; recorded curve points judged by TLC with exact rationals", "Exhaustive over small knot vectors in the model and replayed; larger degrees, knots and parameters sampled; compared to 44 bits."),
 "N02": ("TLA+ halving-search machine model-checked (window, variant, termination), basis machine against the definition; recorded spans and values judged by TLC", "Exhaustive over small knot vectors and parameters in the model, replayed; larger ones sampled. The search is proved for every knot vector with tlapm."),
 "N03": ("TLA+ derivative machine model-checked against derivatives of the polynomials; recorded tables judged by TLC with exact rationals", "Exhaustive over small knot vectors in the model and replayed; larger ones sampled; compared to 30 bits of the row's size."),
 "R01": ("TLA+ register machine model-checked over all short histories; recorded histories validated as its behaviours by TLC", "Exhaustive over short histories of two registers in the model, replayed; longer ones with other values sampled; compared up to the rounding of the terms."),
 "R02": ("TLA+ specification of lengths and normalised vectors, model-checked on rational lengths; recorded histories judged by TLC", "Sampled over vectors and histories; compared to 48 bits."),
 "R03": ("TLA+ specification of lines, planes and normals model-checked on a lattice; recorded answers judged by TLC", "Exhaustive over lattice lines and planes in the model, replayed; larger ones sampled."),
 "C01": ("TLA+ machine of interleaved calls model-checked for ways of keeping working storage; recorded sequential and concurrent histories (race detector on) validated as its behaviours by TLC", "The model tells apart every listed way of sharing state in all interleavings of 2-3 processes; the code's histories and schedules are sampled, the race detector reporting unordered accesses in those executed. The sound ways are proved so for any number of processes with tlapm."),
 "C02": ("TLA+ machine of calls taking and giving back files and goroutines under failures model-checked; what processes hold after each recorded call judged by TLC", "The model tells apart each listed way of keeping something; histories on the code, faults included, are sampled. The sound ways are proved so for any history with tlapm."),
}
NA = {}
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p in T:
        checks.append({"property": p, "quick_cmd": "python3 vt/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 vt/run.py " + p,
            "technique": T[p][0], "level": "model_checking", "level_note": T[p][1] + TRUST})
m = {"version": 1, "setup_cmd": "python3 vt/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in T],
     "notes": "No hooks: in-package shims are laid over /repo at build time with go build -overlay. Specifications in spec/ (TLA+, TLC)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
