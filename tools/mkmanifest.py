#!/usr/bin/env python3
"""Writes checks.json (read by the engine) and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the Go SSA of /repo with SMT (z3) path and assertion queries; counterexamples replayed on the native build"
COMMON = [
 "Go semantics are those of the engine's interpreter of golang.org/x/tools SSA (64-bit, slices grow by doubling); every run replays a sample of completed paths on the native build and compares all observations",
 "files and zip packages are models (contents, order of entries, faults), os, archive/zip and compress/flate themselves are not encoded",
 "text of fmt-formatted errors is modelled loosely; only error identity is used",
 "map iteration follows insertion order",
]
P = {}
def prop(id, note, harnesses, assumptions=()):
    P[id] = dict(technique=TECH, note=note, harnesses=harnesses, assumptions=list(assumptions))
def h(fn, sec, tsec, bounds, reach=(), **kw):
    d = dict(fn=fn, sec=sec, tsec=tsec, bounds=bounds, reach=list(reach)); d.update(kw); return d
exec(open(os.path.join(root, "tools/checks.py")).read())
NA = {}
exec(open(os.path.join(root, "tools/na.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
json.dump(dict(assumptions=COMMON, props=P), open(os.path.join(root, "checks.json"), "w"), indent=1)
checks = []
na = []
for p in props:
    i = p["id"]
    if i in P:
        checks.append(dict(property=i, quick_cmd=f"sh check.sh {i} quick", thorough_cmd=f"sh check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking", level_note=P[i]["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
