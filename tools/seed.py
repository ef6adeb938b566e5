#!/usr/bin/env python3
"""seed.py ID: checks a planted bug of /verif/seeded/ID in a scratch copy of /repo.
With mk(...) it writes one first. Never touches /repo itself."""
import json, os, subprocess, sys, shutil
SCR = "/tmp/seedwt"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# Runs the test beside this file inside the package, through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
r='{"Replace":{'
sep=
for f in "$d"/*_test.go; do
	r="$r$sep\\"$PWD/%(pkg)s/zz_$(basename "$f")\\":\\"$f\\""
	sep=,
done
echo "$r}}" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" -run 'TestDemo' ./%(pkg)s
'''
def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    run("cp", "-a", "/repo", SCR)
def mk(id, prop, pkg, edits, demo, needs, breaks, extra=()):
    """edits: (file, old, new) applied to the scratch copy."""
    fresh()
    d = f"{ROOT}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f, o, n in edits:
        p = f"{SCR}/{f}"
        s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, "w").write(s.replace(o, n))
    fs = sorted({f for f, _, _ in edits})
    assert run("gofmt", "-l", *fs, cwd=SCR).stdout == run("gofmt", "-l", *fs, cwd="/repo").stdout, "gofmt"
    open(f"{d}/patch.diff", "w").write(run("git", "diff", cwd=SCR).stdout)
    open(f"{d}/demo_test.go", "w").write(demo)
    for src in extra:
        shutil.copy(src, d)
    open(f"{d}/demo.sh", "w").write(DEMO % dict(pkg=pkg))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    return check(id)
def check(id):
    d = f"{ROOT}/seeded/{id}"
    base = set()
    fresh()
    r0 = run("sh", f"{d}/demo.sh", cwd=SCR)
    a = run("git", "apply", f"{d}/patch.diff", cwd=SCR)
    b = run("go", "build", "./...", cwd=SCR)
    t = run("go", "test", "-json", "./...", cwd=SCR)
    passed = set()
    for l in t.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
    r1 = run("sh", f"{d}/demo.sh", cwd=SCR)
    # stable tests must pass
    base = json.load(open("/opt/vp/BASELINE.json"))
    miss = [n for n in base['stable'] if n not in passed]
    ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and r1.returncode != 0 and not miss
    print(id, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "apply", a.returncode, "build", b.returncode, "missing", miss)
    if not ok:
        print(r0.stdout[-1500:]); print(a.stdout); print(b.stdout[-800:]); print(r1.stdout[-1500:])
    return ok
if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(f"{ROOT}/seeded")):
        check(i)
