#!/usr/bin/env python3
"""Mutation run: applies mutants one by one in scratch copies, runs the checks
that cover the mutated line (per-check coverage profiles made by cov.sh) and,
for mutants no check notices, the repository's own tests.

usage: run.py MUTS.jsonl COVDIR OUT.jsonl WORKERS SECONDS [path-filter-regex]
"""
import json, os, random, re, shutil, subprocess, sys, threading, time, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import check

muts, covdir, outp, nw, secs = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5])
flt = re.compile(sys.argv[6]) if len(sys.argv) > 6 else None
MOD = "github.com/justyntemme/vst3go/"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
known = {(k["property"], k["signature"]) for k in check.load_known()}
env0 = check.goenv()

# line -> checks
cover = {}
for prof in glob.glob(covdir + "/*.txt"):
    name = os.path.basename(prof)[:-4]
    if "-" not in name:
        continue
    for l in open(prof):
        m = re.match(r"(.*):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)$", l.strip())
        if m and m.group(4) != "0":
            f = m.group(1).replace(MOD, "")
            for ln in range(int(m.group(2)), int(m.group(3)) + 1):
                cover.setdefault((f, ln), set()).add(name)

done = set()
if os.path.exists(outp):
    for l in open(outp):
        d = json.loads(l)
        done.add((d["File"], d["Start"], d["End"], d["New"]))
todo = [json.loads(l) for l in open(muts)]
todo = [m for m in todo if (m["File"], m["Start"], m["End"], m["New"]) not in done and (not flt or flt.search(m["File"]))]
random.Random(7).shuffle(todo)
# hardest sites first come from covered lines; uncovered ones are reported as such
lock = threading.Lock()
t_end = time.time() + secs
out = open(outp, "a")


def sh(cmd, cwd, env, t):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def worker(i):
    base = "/tmp/mutw/%d" % i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    src = base + "/src"
    check.copy_tree(src)
    for root, ds, fs in os.walk(check.REPO + "/pkg"):
        for f in fs:
            if f.endswith("_test.go"):
                d = os.path.join(src, os.path.relpath(root, check.REPO))
                os.makedirs(d, exist_ok=True)
                shutil.copyfile(os.path.join(root, f), os.path.join(d, f))
    env = dict(env0, GOCACHE=base + "/cache", GOMAXPROCS="2", VERIF_SCRATCH=base, GOTMPDIR=base)
    subprocess.run(["cp", "-a", env0.get("GOCACHE", "/root/.cache/go-build"), base + "/cache"])
    for k in ("seq", "wrap"):
        sh(["go", "build", "-trimpath", "-o", base + "/" + k, "./verifmc/cmd/" + k], src, dict(env, CGO_ENABLED="1" if k == "wrap" else "0", CGO_CFLAGS="-O1 -w"), 300)
    sh(["go", "test", "-vet=off", "-run", "XXX", "./pkg/dsp/...", "./pkg/framework/...", "./pkg/midi/..."], src, env, 300)
    while time.time() < t_end:
        with lock:
            if not todo:
                return
            m = todo.pop()
        rel = m["File"].split("/repo/", 1)[1]
        path = os.path.join(src, rel)
        orig = open(path, "rb").read()
        new = orig[:m["Start"]] + m["New"].encode() + orig[m["End"]:]
        marker = base + "/marker"
        open(marker, "w").close()
        time.sleep(0.01)
        open(path, "wb").write(new)
        res = {"status": "?"}
        try:
            res = judge(m, rel, src, base, env)
        finally:
            open(path, "wb").write(orig)
            subprocess.run(["find", base + "/cache", "-newer", marker, "-type", "f", "-delete"])
        m.update(res)
        m["src"] = new[max(0, new.rfind(b"\n", 0, m["Start"])):new.find(b"\n", m["Start"])].decode(errors="replace").strip()
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()


def judge(m, rel, src, base, env):
    cs = cover.get((rel, m["Line"]), set())
    if not cs:
        return {"status": "uncovered"}
    for k in sorted({c.split("-")[1] for c in cs}):
        rc, o = sh(["go", "build", "-trimpath", "-o", base + "/" + k, "./verifmc/cmd/" + k], src,
                   dict(env, CGO_ENABLED="1" if k == "wrap" else "0", CGO_CFLAGS="-O1 -w"), 300)
        if rc != 0:
            return {"status": "nocompile"}
        for c in sorted(cs):
            pid, kk = c.split("-")
            if kk != k:
                continue
            fo = base + "/o.json"
            if os.path.exists(fo):
                os.remove(fo)
            rc, o = sh([base + "/" + k, "-id", pid, "-tier", "quick", "-out", fo, "-shard", "0", "-shards", "1", "-deadline", "150"], base, env, 240)
            if rc != 0 or not os.path.exists(fo):
                return {"status": "killed", "by": pid, "how": "crash/timeout"}
            v = [x for x in json.load(open(fo)).get("violations") or [] if (pid, x["sig"]) not in known]
            if v:
                return {"status": "killed", "by": pid, "how": v[0]["sig"]}
    rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "./pkg/dsp/...", "./pkg/framework/...", "./pkg/midi/..."], src, env, 300)
    for l in o.split("\n"):
        if '"Action":"fail"' in l and '"Test"' in l:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["Package"] + "/" + d["Test"] in stable:
                return {"status": "testkilled", "by": d["Test"], "checks": sorted(cs)}
    return {"status": "survived", "checks": sorted(cs)}


ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree("/tmp/mutw", ignore_errors=True)
