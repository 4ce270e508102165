#!/usr/bin/env python3
"""try_seed.py ID... [--nocheck] [--all-checks]: confirm planted bugs in a scratch copy of /repo
(builds, stable tests pass, demo passes without and fails with the patch) and run
the check of their property on the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
def env_for(repo):
    e = dict(os.environ); e["VERIF_REPO"] = repo; return e
def goenv(d):
    return "export PATH=$(bash -c '. /opt/vp/env.sh; echo $PATH') GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=%s/gc; " % d
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    bad = 0
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        if not os.path.exists(d + "/patch.diff"): continue
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            res = []
            cp = os.path.join(tmp, "repo"); sh(["cp", "-a", "/repo", cp])
            def inside(script):
                # the scratch copy is mounted over /repo, in a namespace of its own
                return sh(["unshare", "-Urm", "bash", "-c", "mount --bind '%s' /repo && cd /repo && %s" % (cp, script)], timeout=900)
            def demo():
                dd = os.path.join(tmp, "demo"); shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
                for f in ("patch.diff", "meta.json"): os.remove(os.path.join(dd, f))
                return inside("bash %s/demo.sh" % dd)
            if "--nodemo" not in sys.argv:
                r0 = demo(); res.append("clean demo %d" % r0.returncode)
                if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-1500:])
            a = sh(["git", "-C", cp, "apply", d + "/patch.diff"])
            if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stderr); bad += 1; continue
            if "--nodemo" not in sys.argv:
                b = inside("bash /opt/vp/build.sh"); res.append("build %d" % b.returncode)
                if b.returncode: print(b.stdout[-1500:], b.stderr[-1500:])
                v = inside(goenv(tmp) + "(go vet ./bandersnatch/... 2>&1 | grep -v '^#' | head -3); go build ./bandersnatch/... ./internal/...")
                if v.returncode: res.append("PACKAGE BUILD FAILS"); print(v.stdout, v.stderr[-800:])
                t = inside("bash /opt/vp/test.sh %s/t.json" % tmp)
                tj = json.load(open(tmp + "/t.json"))
                failed = sorted(k for k in names(base) if k not in passed(tj))
                res.append("tests missing/failed: %s" % failed[:5] if failed else "tests ok")
                r1 = demo(); res.append("patched demo %d" % r1.returncode)
                if r1.returncode == 0: print("DEMO PASSES WITH PATCH")
                else: print("   demo says:", (r1.stdout + r1.stderr).strip()[-300:])
            if "--nocheck" not in sys.argv:
                props = [meta["property"]]
                if "--all-checks" in sys.argv: props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
                for p in props:
                    r = sh([sys.executable, V + "/check.py", p], env=env_for(cp))
                    caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
                    res.append("check %s: %s" % (p, "CAUGHT" if caught else "missed (%d)" % r.returncode))
                    if caught: print("   ", "\n    ".join(r.stdout[:500].splitlines()[1:3]))
                    elif r.returncode not in (0,): print(r.stdout[-1500:])
            print(i, "|", " | ".join(res), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
def names(b):
    if isinstance(b, dict):
        for k in ("tests", "passed", "stable"):
            if k in b:
                b = b[k]; break
    return list(b)
def passed(t):
    for k in ("passed", "pass"):
        if isinstance(t, dict) and k in t: return set(t[k])
    if isinstance(t, dict): return {k for k, v in t.items() if v in ("pass", "passed", True)}
    return set(t)
sys.exit(main())
