#!/usr/bin/env python3
"""Driver: builds the checkers from /repo's working tree and runs one check.

usage: check.py <PROPERTY> <quick|thorough>
"""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib, re, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PARTS = json.load(open(os.path.join(VERIF, "parts.json")))


def sh(cmd, cwd=None, env=None, timeout=None, logf=None):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=logf or subprocess.PIPE,
                          stderr=subprocess.STDOUT if logf is None else logf, text=True)


def goenv():
    env = dict(os.environ)
    for k, v in [("GOFLAGS", "-mod=mod"), ("GOPROXY", "off"), ("GOTOOLCHAIN", "local"), ("GONOSUMDB", "*"),
                 ("GONOSUMCHECK", "1"), ("GOFLAGS", "-mod=mod")]:
        env[k] = v
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; command -v go; echo \"$PATH\"; echo \"$GOCACHE\""],
                       stdout=subprocess.PIPE, text=True).stdout.split("\n")
    if len(p) >= 2 and p[1]:
        env["PATH"] = p[1]
    if len(p) >= 3 and p[2]:
        env["GOCACHE"] = p[2]
    env.setdefault("HOME", "/root")
    return env


def copy_tree(dst, tests=False):
    """Copy the Go sources of /repo's working tree plus the harness."""
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d in ("pkg", "bridge")]
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        for f in files:
            if f.endswith("_test.go"):
                continue
            if rel == "." and f not in ("go.mod", "go.sum"):
                continue
            if f.endswith((".go", ".mod", ".sum", ".c", ".h")):
                d = os.path.join(dst, rel)
                os.makedirs(d, exist_ok=True)
                shutil.copyfile(os.path.join(root, f), os.path.join(d, f))
    shutil.copytree(os.path.join(VERIF, "mc"), os.path.join(dst, "verifmc"))
    stub = os.path.join(VERIF, "stub", "vst3_c_api.h")
    if os.path.exists(stub):
        os.makedirs(os.path.join(dst, "include", "vst3"), exist_ok=True)
        if not os.path.exists(os.path.join(REPO, "include", "vst3", "vst3_c_api.h")):
            shutil.copyfile(stub, os.path.join(dst, "include", "vst3", "vst3_c_api.h"))


def build(kind, work, env):
    """Return the binary path; kind is seq, conc, wrap, edit, host or refs."""
    dst = os.path.join(work, kind)
    copy_tree(dst)
    if kind == "refs":
        return build_refs(dst, os.path.join(work, kind + ".bin"), env)
    mod = "github.com/justyntemme/vst3go"
    out = os.path.join(work, kind + ".bin")
    args = ["go", "build", "-trimpath", "-o", out]
    if kind == "host":
        shutil.copyfile(os.path.join(VERIF, "mc", "access", "access.go.txt"),
                        os.path.join(dst, "pkg", "plugin", "zz_verif_access.go"))
    if kind == "edit":  # the host's checks plus a door to edits made by the plugin
        shutil.copyfile(os.path.join(VERIF, "mc", "access", "edit.go.txt"),
                        os.path.join(dst, "pkg", "plugin", "zz_verif_edit.go"))
    if kind in ("conc", "host"):
        r = sh(["go", "run", "-trimpath", "./verifmc/cmd/instrument", os.path.join(dst, "pkg")], cwd=dst, env=env)
        if r.returncode != 0:
            print(r.stdout)
            return None
        args += ["-race", "-tags", "debug", "-gcflags=all=-d=checkptr=0"]
        for p in ("sched", "msync"):
            args += ["-gcflags=%s/verifmc/%s=-race=false" % (mod, p)]
        env = dict(env, CGO_ENABLED="1")
    elif kind in ("wrap", "edit"):
        env = dict(env, CGO_ENABLED="1", CGO_CFLAGS="-O1 -w")
        # like a plugin's library, at high addresses: component handles count up from
        # one, and after millions they would be addresses of a program's own data
        args += ["-buildmode=pie"]
        if kind == "edit":
            args += ["-tags", "verifedit"]
            kind = "wrap"
    args += ["./verifmc/cmd/" + kind]
    r = sh(args, cwd=dst, env=env)
    if r.returncode != 0:
        print(r.stdout)
        return None
    return out


def build_refs(dst, out, env):
    """The C bridge, compiled for the thread sanitizer but linked with the
    explorer in mc/crefs instead of its runtime."""
    objs = []
    wrap = ["malloc", "free", "calloc", "pthread_mutex_lock", "pthread_mutex_unlock"]
    explorer = os.path.join(dst, "explorer.c")
    shutil.copyfile(os.path.join(VERIF, "mc", "crefs", "refs.c.txt"), explorer)
    bdir = os.path.join(dst, "bridge")
    for f in sorted(os.listdir(bdir)):
        if f.endswith(".c"):
            o = os.path.join(dst, f + ".o")
            r = sh(["gcc", "-O1", "-w", "-fsanitize=thread", "-c", os.path.join(bdir, f), "-o", o], cwd=dst, env=env)
            if r.returncode != 0:
                print(r.stdout)
                return None
            objs.append(o)
    r = sh(["gcc", "-O1", "-w", "-no-pie", "-I", dst, explorer] + objs + ["-o", out, "-Wl,--unresolved-symbols=ignore-all"] +
           ["-Wl,--wrap=" + w for w in wrap], cwd=dst, env=env)
    if r.returncode != 0:
        print(r.stdout)
        return None
    return out


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):  # "fixed:" lines and comments suppress nothing
                res.append(json.loads(line))
    return res


def main():
    if sys.argv[1:] == ["--setup"]:
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            ok = all(build(k, work, goenv()) for k in sorted({k for p in PARTS.values() for k in p["parts"]}))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0 if ok else 2
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PARTS[pid]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, tier, seed, spec, t0, evdir, repdir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, spec, t0, evdir, repdir, work):
    env = goenv()
    total = float(spec.get("deadline", {}).get(tier, 150 if tier == "quick" else 700))
    frags, viol, notes = [], [], []
    for kind in spec["parts"]:
        b = build(kind, work, env)
        if b is None:
            print("BUILD FAILED for %s: no answer" % kind)
            return 2
        shards = spec.get("shards", {}).get(kind, 8 if kind in ("conc", "host", "wrap", "edit") else 1)
        budget = total / len(spec["parts"])
        # the race detector never gives memory back: long runs are cut into
        # several processes, one after another
        waves = 4 if kind == "conc" and tier == "thorough" else 1
        done = []

        def worker(i):
            end = time.time() + budget
            for w in range(waves):
                n = i + w * shards
                out = os.path.join(work, "%s.%d.json" % (kind, n))
                log = open(os.path.join(work, "%s.%d.log" % (kind, n)), "w")
                e = dict(env)
                # component handles are small integers in pointers; race builds keep
                # them in frames in which the runtime checks pointers when it moves a stack
                if kind == "host":
                    e["GODEBUG"] = "invalidptr=0"
                e["GORACE"] = "halt_on_error=0 history_size=3 exitcode=0"
                e["VERIF_SCRATCH"] = work
                if kind not in ("conc", "host"):
                    e.pop("GOMAXPROCS", None)
                left = max(1.0, end - time.time())
                p = subprocess.Popen([b, "-id", pid, "-tier", tier, "-out", out, "-shard", str(n), "-shards", str(shards * waves),
                                      "-deadline", str(left)], stdout=log, stderr=log, env=e, cwd=work)
                try:
                    p.wait(timeout=left + 100)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    notes.append("part %s stopped at its time limit" % kind)
                log.close()
                done.append((n, p, out, log))

        threads = [threading.Thread(target=worker, args=(i,)) for i in range(shards)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for _, p, out, log in sorted(done, key=lambda d: d[0]):
            text = open(log.name).read()
            if os.path.exists(out):
                f = json.load(open(out))
                f["kind"] = kind
                for v in f.get("violations") or []:
                    if v["sig"].startswith("race:"):
                        v["msg"] += "\n" + text[:6000]
                frags.append(f)
            elif p.returncode and p.returncode > 0 or (p.returncode or 0) in (-6, -11, -7, -8, -4):
                m = re.search(r"^(fatal error: .*|panic: .*|SIG\w+.*|unexpected fault.*)$", text, re.M)
                viol.append({"sig": "crash:" + (m.group(1)[:80] if m else "exit %s" % p.returncode),
                             "msg": "the checked code crashed the process:\n" + text[-5000:], "replay": {"kind": kind}})
            else:
                notes.append("part %s shard gave no result (rc %s)" % (kind, p.returncode))
    for f in frags:
        viol += f.get("violations") or []
    if not frags and not viol:
        print("no result:", notes)
        return 2
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "open") == "open"]
    reported, rc, seen = set(), 0, set()
    n = 0
    for v in viol:
        k = next((k for k in known if k["signature"] == v["sig"]), None)
        if k:
            if v["sig"] not in reported:
                reported.add(v["sig"])
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        rc = 1
        n += 1
        if n > 10:
            continue
        path = os.path.join(repdir, "%s-%s.json" % (pid, hashlib.sha1((v["sig"] + v["msg"]).encode()).hexdigest()[:10]))
        json.dump({"property": pid, "tier": tier, "violation": v,
                   "rerun": "python3 %s/check.py %s %s" % (VERIF, pid, tier)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s" % (v["sig"], v["msg"][:1500].replace("\n", "\n  ")))
    # evidence
    tot = lambda k: sum(int(f.get(k) or 0) for f in frags)
    bounds, parts, samples = {}, {}, []
    for f in frags:
        bounds.update(f.get("bounds") or {})
        for k, x in (f.get("parts") or {}).items():
            parts[k] = parts.get(k, 0) + x
        for s in f.get("samples") or []:
            if len(samples) < 12 and s not in samples:
                samples.append(s)
    exhaustive = all(f.get("exhaustive") for f in frags) and not notes
    cov = {
        "states": max(1, tot("states")), "transitions": max(1, tot("transitions")),
        "traces_validated_against_impl": tot("traces"),
        "schedules": tot("schedules"), "exhaustive": bool(exhaustive), "bounds": bounds, "parts": parts,
        "evaluations": max(1, tot("states")), "distinct_nontrivial": max(1, tot("nontrivial")),
        "rule": spec.get("rule", "every execution within the bounds counts; non-trivial = the property constrained its outcome"),
        "samples": samples or ["(none)"], "notes": notes,
        "impl": "explored directly on the code built from /repo's working tree (%s)" % ", ".join(spec["parts"]),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s: states=%d transitions=%d schedules=%d exhaustive=%s wall=%.1fs%s" % (
        pid, tier, cov["states"], cov["transitions"], cov["schedules"], exhaustive, ev["wall_s"],
        "" if rc == 0 else "  FAILED"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
