#!/usr/bin/env python3
"""Diagnostic only (no verdict depends on it): single-point mutants of /repo against the checks.
usage: tools/mutate.py OUT.jsonl N [--seed S] [--jobs J] [--scale X] [--files SUBSTR,...] [--all] [--race]
--race: mutants of racegen (locals turned into package variables) against M01.
Samples N mutants of covered lines (every file gets a share), builds all families' harness over each by an overlay,
runs the checks of the package's families and records the first that reports, or 'SURVIVED'."""
import sys, os, json, random, subprocess, tempfile, shutil, glob, re, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
a = sys.argv[1:]
opt = lambda n, d: a[a.index(n) + 1] if n in a else d
OUT, N = a[0], int(a[1])
random.seed(int(opt("--seed", "1")))
SCALE = opt("--scale", "0.15")
RACE = "--race" in a
SUB = opt("--files", "").split(",")
R = os.environ.get("VERIF_REPO", "/repo")
base = tempfile.mkdtemp(prefix="mutate-")
env = check.go_env(base)
env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"; env["GOMAXPROCS"] = "4" if "--race" in a else "2"; env["VERIF_SCRATCH"] = base; env["VERIF_FLAVOUR"] = "plain"
gen = base + "/mutgen"
subprocess.run(["go", "build", "-o", gen, "."], cwd=V + ("/tools/racegen" if RACE else "/tools/mutgen"), env=env, check=True)
P = lambda f, s: [f + "%02d" % i for i in s]
PROPS = [("fieldElements/", P("F", range(1, 10))), ("curvePoints/", P("C", range(1, 8))),
         ("pointserializer/", P("S", range(1, 6))), ("errorsWithData/", P("E", range(1, 6))), ("exponents/", P("X", range(1, 4))),
         ("common/", ["M02", "M03", "F08", "S01", "S05"]), ("callcounters", ["M04"]), ("internal/", ["M03", "M02", "M04", "F09", "S04", "E01", "S03", "S05"])]
have = {json.loads(l)["id"] for l in open(V + "/properties.jsonl")}
def props(f):
    if RACE: return ["M01"]
    for k, v in PROPS:
        if k in f: return [p for p in v if p in have]
    return sorted(have - {"M01"})
cov = {}
try:
    for l in open("/tmp/cov/profile.txt"):
        m = re.match(r"github.com/GottfriedHerold/Bandersnatch/(.*):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)", l)
        if m and m.group(4) != "0":
            cov.setdefault(m.group(1), set()).update(range(int(m.group(2)), int(m.group(3)) + 1))
except OSError: pass
muts = []
for f in sorted(glob.glob(R + "/bandersnatch/*/*.go") + glob.glob(R + "/internal/*/*.go")):
    rel = os.path.relpath(f, R)
    if rel.endswith("_test.go") or not any(s in rel for s in SUB): continue
    ms = [json.loads(l) for l in subprocess.run([gen, f], capture_output=True, text=True, env=env).stdout.splitlines()]
    ms = [dict(m, file=rel) for m in ms if "--all" in a or m["fn"] == "(decl)" or m["line"] in cov.get(rel, ())]
    random.shuffle(ms); muts.append(ms)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["off"], d["end"], d["repl"]))
# shares by the root of the number of mutants, so small files count
w = [len(m) ** 0.7 for m in muts]; tot = sum(w) or 1
pick = []
for m, x in zip(muts, w): pick += m[:max(1, round(N * x / tot))]
pick = [m for m in pick if (m["file"], m["off"], m["end"], m["repl"]) not in done]
random.shuffle(pick)
print(len(pick), "mutants of", sum(map(len, muts)), flush=True)
rep0 = {}
for f in glob.glob(V + "/harness/*.go"):
    if RACE or not os.path.basename(f).startswith("r_"): rep0[R + "/internal/zzverif/" + os.path.basename(f)] = f
for fam in sorted(set(check.BRIDGE) | set(check.PARTS)):
    for pkg, src in check.BRIDGE.get(fam, []): rep0[R + "/bandersnatch/" + pkg + "/zz_verif_bridge.go"] = V + "/harness/bridge/" + src
    for pkg, f in [(k, f) for k in check.PARTS.get(fam, []) for f in glob.glob(V + "/harness/bridge/part_%s_*.go" % k)]:
        rep0[R + "/bandersnatch/" + pkg + "/zz_verif_" + os.path.basename(f)] = f
q = queue.Queue(); [q.put(m) for m in pick]
lock = threading.Lock(); out = open(OUT, "a"); stat = {}
def work(i):
    d = base + "/w%d" % i; os.makedirs(d)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        src = open(os.path.join(R, m["file"]), "rb").read()
        mf = d + "/mut.go"; open(mf, "wb").write(m.pop("full").encode() if "full" in m else src[:m["off"]] + m["repl"].encode() + src[m["end"]:])
        rep = dict(rep0); rep[os.path.join(R, m["file"])] = mf
        json.dump({"Replace": rep}, open(d + "/ov.json", "w"))
        res, how, t0 = None, "", time.time()
        tags = ["-tags", "callcounters"] if "callcounters" in m["file"] else []
        r = subprocess.run(["go", "build", "-overlay", d + "/ov.json", "-o", d + "/exe"] + (["-race"] if RACE else tags) + ["./internal/zzverif"], cwd=R, env=env, capture_output=True, text=True)
        if r.returncode: res = "NOBUILD"; how = r.stderr[-300:]
        else:
            for p in props(m["file"]):
                try:
                    r = subprocess.run(["prlimit", "--as=8000000000000", d + "/exe", "-prop", p, "-tier", "quick", "-seed", "1", "-out", d + "/ev.json", "-known", V + "/known_findings.txt",
                                    "-replaydir", d, "-scale", SCALE], cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=300)
                except subprocess.TimeoutExpired: res = "TIMEOUT " + p; break
                if RACE and "WARNING: DATA RACE" in r.stderr: res = "killed " + p; how = "race"; break
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = "killed " + p; how = r.stdout[:300]; break
                if r.returncode == 3 and "INCONCLUSIVE" in r.stdout: continue # thresholds do not scale
                if r.returncode:
                    crash = re.search(r"^(fatal error: .*|panic: .*)$", r.stderr, re.M)
                    ours = "Bandersnatch/bandersnatch" in r.stderr
                    if crash and ours and r.returncode == 2: res = "killed " + p; how = "crash " + crash.group(1)[:200]; break
                    res = "ODD%d %s" % (r.returncode, p); how = (r.stdout[-300:] + r.stderr[-500:]); break
            res = res or "SURVIVED"
        with lock:
            out.write(json.dumps(dict(m, res=res, how=how, t=round(time.time() - t0, 1))) + "\n"); out.flush()
            k = res.split()[0]; stat[k] = stat.get(k, 0) + 1
            if sum(stat.values()) % 50 == 0: print(stat, flush=True)
try:
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(opt("--jobs", "5")))]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(stat)
finally: shutil.rmtree(base, ignore_errors=True)
