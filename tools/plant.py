"""Confirm a planted bug and keep it: python3 tools/plant.py FILE.py ...
Each file sets id, prop, needs, breaks, edits=[(file, old, new)], demo (Go test file), pkg."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")  # or a clone of it, to leave it alone
SH = '''#!/bin/bash
# exit 0 if the test beside this file passes in the repository this runs in
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/@PKG@zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
@ENV@TMPDIR=$tmp timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo' ./@PKG@
'''
PRELUDE = open(os.path.join(ROOT, "tools", "plant_prelude.go")).read()

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def plant(path):
    g = {}
    exec(open(path).read(), g)
    pkg = g.get("pkg", "")
    d = os.path.join(ROOT, "seeded", g["id"])
    assert sh("git status --short").stdout == "", "dirty"
    os.makedirs(d, exist_ok=True)
    demo = g["demo"].replace("//PRELUDE", PRELUDE)
    open(d + "/demo_test.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH.replace("@PKG@", pkg).replace("@ENV@", g.get("env", "")))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash " + d + "/demo.sh")
    if r.returncode:
        return "demo fails on the unchanged tree:\n" + r.stdout[-2500:]
    try:
        for f, old, new in g["edits"]:
            s = open(os.path.join(REPO, f)).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %s" % (f, s.count(old), old)
            open(os.path.join(REPO, f), "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        scratch = REPO != "/repo"
        r = sh(". /opt/vp/env.sh; gofmt -l . ; " + ("go build ./..." if scratch else "bash /opt/vp/build.sh"))
        if r.returncode or r.stdout.strip().endswith(".go"):
            return "build: " + r.stdout[-1500:]
        if scratch:
            r = sh(". /opt/vp/env.sh; go test ./...")
            if r.returncode:
                return "tests fail:\n" + r.stdout[-800:]
        else:
            out = "/tmp/plant-tests.json"
            r = sh("bash /opt/vp/test.sh " + out)
            t = json.load(open(out))
            if t["failed"] or len(t["passed"]) < 44:
                return "tests fail: %s\n%s" % (t["failed"], r.stdout[-800:])
        r = sh("bash " + d + "/demo.sh")
        if r.returncode == 0:
            return "demo passes with the bug"
        why = [l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l][:2]
        checks = [g["prop"]] + g.get("also", [])
        res = []
        for c in checks:
            k = subprocess.run(os.environ["PLANT_CHECK"].split() + [c] if "PLANT_CHECK" in os.environ else [sys.executable, "check.py", c, "quick"], cwd=ROOT, env=dict(os.environ, VERIF_SEED="1", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s:%s" % (c, "CAUGHT" if k.returncode == 1 and v else "missed" if k.returncode == 0 else "ERROR %d %s" % (k.returncode, k.stdout[-600:])))
        return " ".join(res) + "   (" + "; ".join(x.strip() for x in why)[:160] + ")"
    finally:
        sh("git checkout -- .")

for p in sys.argv[1:]:
    print(os.path.basename(p), plant(p), flush=True)
