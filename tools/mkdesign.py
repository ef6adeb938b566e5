#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table, checks.py, seed results and design_tail.md."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def prop(id, note, harnesses, assumptions=()):
    P[id] = dict(note=note, harnesses=harnesses, assumptions=list(assumptions))
def h(fn, sec, tsec, bounds, reach=(), **kw):
    return dict(fn=fn, sec=sec, tsec=tsec, bounds=bounds, reach=list(reach), **kw)
exec(open(os.path.join(root, "tools/checks.py")).read())
NA = {}
exec(open(os.path.join(root, "tools/na.py")).read())
ORACLE = {}
exec(open(os.path.join(root, "tools/design_notes.py")).read())
res = {}
rf = os.path.join(root, "tools/seed_results.json")
if os.path.exists(rf): res = json.load(open(rf))
out = [open(os.path.join(root, "tools/design_head.md")).read()]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
    if i not in P:
        out.append("\nNot claimed: " + NA.get(i, "no check") + "\n"); continue
    c = P[i]
    out.append("\n*How it is decided.* " + c["note"] + "\n")
    if i in ORACLE: out.append("\n*Oracle.* " + ORACLE[i] + "\n")
    out.append("\n*Beyond the tests.* " + p["why_tests_cant"] + "\n")
    out.append("\n| harness | bounds (all values within) | budget quick / thorough (s) |\n|---|---|---|\n")
    for x in c["harnesses"]:
        out.append(f"| `{x['fn']}` | {x['bounds']} | {x['sec']} / {x['tsec']} |\n")
    if c["assumptions"]:
        out.append("\nOutside: " + "; ".join(c["assumptions"]) + ".\n")
out.append("""
Budgets are the measured time of a complete exploration with headroom (8 cores share the harnesses).

## 3. Genuine defects found

All are repaired in `/repo` by `fix:` commits and listed in `known-findings.txt` (which
suppresses nothing for fixed entries):

""")
for l in open(os.path.join(root, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out.append(f"* {m[1]} `{m[2]}` {m[3]}\n")
    elif l.startswith("finding:"): out.append("* recorded only: " + l[9:])
out.append("""
## 4. Planted bugs and the checks that catch them

Each is a patch of `/repo` with a demonstration in `seeded/`; quick tier.

| bug | property | needs | caught by |
|---|---|---|---|
""")
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(res.get(n, {}).get('caught', [])) or res.get(n, {}).get('note', 'not caught')} |\n")
out.append(open(os.path.join(root, "tools/design_tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
