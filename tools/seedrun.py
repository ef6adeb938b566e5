#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property (or those named) with the bug applied to /repo; writes tools/seed_results.json."""
import json, os, glob, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rf = os.path.join(root, "tools/seed_results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
names = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(root + "/seeded/*/meta.json"))
for n in names:
    d = f"{root}/seeded/{n}"; m = json.load(open(d + "/meta.json")); c = m["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        o = subprocess.run(["sh", "check.sh", c, "quick"], cwd=root, capture_output=True, text=True, timeout=900)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    ok = o.returncode == 1 and f"VIOLATION property={c}" in o.stdout
    print(n, c, "CAUGHT" if ok else f"missed rc={o.returncode}", round(time.time() - t), flush=True)
    if not ok and o.returncode not in (0, 1): print(o.stdout[-600:], o.stderr[-600:])
    r = res.setdefault(n, {}); r["caught"] = [c] if ok else []
    json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
