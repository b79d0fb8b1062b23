#!/usr/bin/env python3
"""Development tool (no check uses it): write seeded/<id>/ from bugspecs/<id>.py and try it.
   plant.py ID...            write + verify (build, demo both ways, stable tests) + run the check
   plant.py --check ID...    only run the check of the property against the planted bug
   plant.py --regen          rewrite all patches against /repo HEAD
A spec is a Python file with: prop, pkg, edits=[(file, old, new)], needs, breaks, demo (Go source)."""
import json, os, subprocess, sys, runpy, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = os.path.join(V, "tools", "bugspecs")
DEMO = r'''#!/bin/bash
# exit 0: behaves as it should; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
TMPDIR=$t go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo$' -timeout 200s ./PKG
'''
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git", "-C", "/repo", "checkout", "--", ".")
def write(i):
    s = runpy.run_path(os.path.join(SP, i + ".py"))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        r = sh("git", "-C", "/repo", "diff")
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    finally:
        clean()
    if "demo" in s:
        src = s["demo"]
        if "t.TempDir()" in src:  # background saves may still write while the test framework removes its folders
            src = src.replace("t.TempDir()", "demoDir()").replace("import (", 'import (\n\tdemoos "os"', 1)
            src += '''
func demoDir() string {
	d, err := demoos.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	return d
}
'''
        open(os.path.join(d, "demo_test.go"), "w").write(src)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("PKG", s["pkg"]))
    else:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return s, d
def check(i, s, d):
    r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if r.returncode: print(i, "APPLY FAILED", r.stdout); return
    try:
        t = time.time()
        r = sh("python3", os.path.join(V, "check.py"), s["prop"], env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")), cwd=V)
        print(i, "CHECK %s rc=%d %.0fs %s" % (s["prop"], r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 else "MISSED <<<<<<"), r.stdout.strip()[-400:].replace("\n", " | "), flush=True)
        cf = os.path.join(V, "tools", "caught.json")
        c = json.load(open(cf)) if os.path.exists(cf) else {}
        k = [l.split(":")[0][5:] for l in r.stdout.splitlines() if l.startswith("---- ")]
        c[i] = "%s %s" % (s["prop"], " ".join(sorted(set(k)))) if r.returncode == 1 else "**missed**"
        json.dump(c, open(cf, "w"), indent=0, sort_keys=True)
    finally:
        clean()
def verify(i, s, d):
    clean()
    ok = True
    r = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
    if r.returncode: print(i, "DEMO FAILS UNPATCHED", r.stdout[-1500:]); ok = False
    r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if r.returncode: print(i, "APPLY", r.stdout); return False
    try:
        r = sh("bash", "/opt/vp/build.sh")
        if r.returncode: print(i, "BUILD", r.stdout[-1500:]); return False
        r = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
        if r.returncode == 0: print(i, "DEMO PASSES PATCHED"); ok = False
        else: print(i, "demo fails as it should:", [l for l in r.stdout.splitlines() if "zz_demo" in l or "demo_test" in l or "panic" in l][:2])
        sh("bash", "/opt/vp/test.sh", "/tmp/plant-t.json")
        res = json.load(open("/tmp/plant-t.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in st if x not in res.get("passed", res.get("pass", []))]
        if bad: print(i, "STABLE TESTS BROKEN", bad); ok = False
    finally:
        clean()
    print(i, "VERIFIED" if ok else "NOT OK <<<<<<<<", flush=True)
    return ok
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--regen":
        for f in sorted(os.listdir(SP)):
            if f.endswith(".py"): write(f[:-3])
    elif a[0] == "--check":
        for i in a[1:]:
            s, d = write(i); check(i, s, d)
    else:
        for i in a:
            s, d = write(i)
            verify(i, s, d); check(i, s, d)
