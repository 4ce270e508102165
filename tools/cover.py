#!/usr/bin/env python3
"""Diagnostic only: which statements of /repo the checks execute (no verdict depends on it).
usage: tools/cover.py OUTDIR [PROP...]   -> OUTDIR/profile.txt
The cover tool ignores overlays, so harness and bridge are copied into a scratch copy of /repo."""
import os, sys, subprocess, tempfile, shutil, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
out = os.path.abspath(sys.argv[1]); os.makedirs(out, exist_ok=True)
props = sys.argv[2:] or [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
base = tempfile.mkdtemp(prefix="cover-")
try:
    for p in props:
        check.PROP_NOW[:] = [p[0], p]
        d = os.path.join(base, p); os.makedirs(d)
        repo = d + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        z = repo + "/internal/zzverif"; os.makedirs(z)
        for f in glob.glob(V + "/harness/*.go"):
            if any(os.path.basename(f).startswith(x) for x in check.files_of(p)): shutil.copy(f, z)
        for pkg, src in check.BRIDGE.get(p[0], []):
            shutil.copy(V + "/harness/bridge/" + src, repo + "/bandersnatch/" + pkg + "/zz_verif_bridge.go")
        pkg = (check.PARTS.get(p[0]) or [None])[0]
        for f in glob.glob(V + "/harness/bridge/part_%s_*.go" % pkg) if pkg else []:
            shutil.copy(f, repo + "/bandersnatch/" + pkg + "/zz_verif_" + os.path.basename(f))
        env = check.go_env(base)
        exe = d + "/exe"
        r = subprocess.run(["go", "build", "-cover", "-covermode=set", "-coverpkg=./bandersnatch/...,./internal/...", "-o", exe, "./internal/zzverif"], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode: print(p, r.stderr[-2000:]); continue
        cd = os.path.join(out, p); shutil.rmtree(cd, ignore_errors=True); os.makedirs(cd)
        env.update(GOCOVERDIR=cd, VERIF_SCRATCH=d, VERIF_FLAVOUR="plain")
        r = subprocess.run([exe, "-prop", p, "-tier", "quick", "-seed", "1", "-out", d + "/ev.json", "-known", V + "/known_findings.txt",
                            "-replaydir", d, "-scale", "0.3"], cwd=d, env=env, capture_output=True, text=True)
        print(p, r.returncode, len(os.listdir(cd)), r.stdout[-300:] if r.returncode else "", flush=True)
        shutil.rmtree(d)
    env = check.go_env(base)
    ds = [os.path.join(out, x) for x in sorted(os.listdir(out)) if os.path.isdir(os.path.join(out, x))]
    subprocess.run(["go", "tool", "covdata", "textfmt", "-i=" + ",".join(ds), "-o=" + out + "/profile.txt"], env=env, check=True, cwd="/repo")
finally:
    shutil.rmtree(base, ignore_errors=True)
