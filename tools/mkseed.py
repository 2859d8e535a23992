#!/usr/bin/env python3
"""Make, verify and try planted bugs.

mkseed.py new SPEC.py...   each SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (Go main), NEEDS, BREAKS, RACE=False
mkseed.py try ID...        run the property's check against the planted bug in a scratch copy
mkseed.py verify ID...     re-verify an existing planted bug
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd at the repository
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/pkg/zzdemo/main.go": "%%s/main.go.txt"}}' "$PWD" "$dir" > "$t/o.json"
go build %s -overlay "$t/o.json" -o "$t/demo" ./pkg/zzdemo || exit 3
timeout 120 "$t/demo"
'''

WRAPDEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd at the repository
# (builds a small host beside a copy of the packages, with the C API header that lies here)
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/r/include/vst3" && cp -a "$PWD/go.mod" "$PWD/pkg" "$PWD/bridge" "$t/r/" || exit 3
[ -f "$PWD/go.sum" ] && cp "$PWD/go.sum" "$t/r/"
cp "$dir/vst3_c_api.h" "$t/r/include/vst3/" || exit 3
mkdir -p "$t/r/pkg/zzdemo" && cp "$dir/host.go.txt" "$t/r/pkg/zzdemo/host.go" && cp "$dir/main.go.txt" "$t/r/pkg/zzdemo/main.go" || exit 3
cd "$t/r" && go build -o "$t/demo" ./pkg/zzdemo || exit 3
timeout 120 "$t/demo"
'''

def scratch():
    t = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
    return t, t + "/repo"

def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def stable(repo):
    # run the repository's own tests on the copy, compare with the stable list
    b = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build ./pkg/framework/... ./pkg/dsp/... ./pkg/midi/... 2>&1 | head; go test -json ./... 2>/dev/null" % repo])
    ok = set()
    failed = set()
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("Test"):
            k = d["Package"] + " " + d["Test"]
            if d.get("Action") == "pass": ok.add(k)
            if d.get("Action") == "fail": failed.add(k)
    return ok, failed

def verify(i):
    d = os.path.join(V, "seeded", i)
    t, repo = scratch()
    try:
        rc0, o0 = run(["bash", d + "/demo.sh"], cwd=repo)
        ok0, f0 = stable(repo)
        rc, o = run(["git", "apply", d + "/patch.diff"], cwd=repo)
        if rc: print(i, "PATCH DOES NOT APPLY", o); return False
        rc1, o1 = run(["bash", d + "/demo.sh"], cwd=repo)
        ok1, f1 = stable(repo)
        lost = ok0 - ok1
        good = rc0 == 0 and rc1 not in (0, 3) and not lost
        print(i, "demo clean", rc0, "patched", rc1, "lost tests", sorted(lost)[:5], "OK" if good else "BAD")
        if not good:
            print("clean:", o0[-600:], "\npatched:", o1[-600:])
        else:
            print("   ", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
        return good
    finally:
        shutil.rmtree(t)

def attempt(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    t, repo = scratch()
    try:
        run(["git", "apply", d + "/patch.diff"], cwd=repo)
        rc, o = run(["python3", V + "/check.py", meta["property"], "quick"], env=dict(os.environ, VERIF_REPO=repo))
        hit = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        print(i, meta["property"], "CAUGHT" if rc == 1 and hit else "MISSED rc=%d" % rc, "|", "\n".join(o.splitlines()[:3])[:300])
    finally:
        shutil.rmtree(t)

def new(spec):
    g = {"RACE": False}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    t, repo = scratch()
    try:
        for f, a, b in g["EDITS"]:
            s = open(os.path.join(repo, f)).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(os.path.join(repo, f), "w").write(s.replace(a, b))
        p = run(["git", "diff"], cwd=repo)[1]
        open(d + "/patch.diff", "w").write(p)
    finally:
        shutil.rmtree(t)
    open(d + "/main.go.txt", "w").write(g["DEMO"].lstrip())
    if g.get("WRAP"):
        open(d + "/demo.sh", "w").write(WRAPDEMO)
        shutil.copyfile(V + "/stub/vst3_c_api.h", d + "/vst3_c_api.h")
        h = open(V + "/mc/wrap/host.go").read()
        h = h[h.index("package wrap"):].replace("package wrap", "package main", 1)
        open(d + "/host.go.txt", "w").write(h)
    else:
        open(d + "/demo.sh", "w").write(DEMO % ("-race" if g["RACE"] else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if verify(g["ID"]):
        attempt(g["ID"])

if sys.argv[1] == "new":
    for s in sys.argv[2:]: new(s)
else:
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        verify(i) if sys.argv[1] == "verify" else attempt(i)
