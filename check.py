#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE] [--scale X] [--keep]

Builds the harness against /repo's current working tree (by a go build overlay,
in a private scratch directory that is removed afterwards) and runs the check of
one property. Exit 0: held on everything observed. Exit 1 with a line
'VIOLATION property=<id> replay=<path>': broken. Other: no verdict.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# flavours: list of (extra go build flags, name); the last one's evidence is kept
RACE = {"M01"}
TAGS = {"M04": ["callcounters"]}
# in-package bridges: the first file of a list fits any version of the package and is always
# added; the parts are dropped one by one where a refactored tree does not fit them
BRIDGE = {"C": [("curvePoints", "bridge_curvepoints.go")],
          "S": [("curvePoints", "bridge_curvepoints.go"), ("pointserializer", "bridge_pointserializer.go")],
          "X": [("exponents", "bridge_exponents.go")],
          "F": [("fieldElements", "bridge_fieldelements.go")]}
BRIDGE["M"] = BRIDGE["C"]
# the race check runs the workloads of the others, too
BRIDGE["M01"] = BRIDGE["S"] + BRIDGE["X"] + BRIDGE["F"]
PARTS = {"C": ["curvePoints"], "S": ["pointserializer"], "X": ["exponents"], "F": ["fieldElements"],
         "M01": ["pointserializer", "exponents"]}
SMALL = [False]  # M01 without the other workloads, if those do not fit the tree
def of(table):
    return table.get(PROP_NOW[1]) if PROP_NOW[1] in table and not SMALL[0] else table.get(PROP_NOW[0], [])

def go_env(scratch):
    env = dict(os.environ)
    path = env.get("PATH", "")
    for d in ("/usr/local/go/bin", "/usr/lib/go/bin"):
        if os.path.isdir(d) and d not in path: path = d + ":" + path
    # the toolchain the repository's build uses
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; echo $PATH"],
                             capture_output=True, text=True, timeout=60).stdout.strip().splitlines()
        if out: path = out[-1]
    except Exception: pass
    env.update(PATH=path, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local",
               GOCACHE=os.path.join(scratch, "gocache"), GOTMPDIR=scratch, GOSUMDB="off",
               CGO_ENABLED="1", GO111MODULE="on")
    env.pop("GODEBUG", None)
    return env

def build(scratch, env, flags, name):
    """Builds the harness; returns (binary or None, log, dropped parts)."""
    parts = [(pkg, f) for pkg in of(PARTS) for f in sorted(glob.glob(os.path.join(VERIF, "harness/bridge", "part_%s_*.go" % pkg)))]
    dropped = []
    SMALL[0] = False
    while True:
        exe, log = build_with(scratch, env, flags, name, parts)
        if exe: return exe, log, dropped
        if not parts:
            if PROP_NOW[1] != "M01" or SMALL[0]: return exe, log, dropped
            SMALL[0] = True; dropped = [("", "other workloads")]
            continue
        bad = [p for p in parts if os.path.basename(p[1]) in log] or parts
        dropped += bad
        parts = [p for p in parts if p not in bad]

def build_with(scratch, env, flags, name, parts):
    rep = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.go"))):
        b = os.path.basename(f)
        if not any(b.startswith(x) for x in files_of(PROP_NOW[1])): continue
        rep[os.path.join(REPO, "internal/zzverif", b)] = f
    for pkg, src in of(BRIDGE):
        rep[os.path.join(REPO, "bandersnatch", pkg, "zz_verif_bridge.go")] = os.path.join(VERIF, "harness", "bridge", src)
    for pkg, p in parts:
        rep[os.path.join(REPO, "bandersnatch", pkg, "zz_verif_" + os.path.basename(p))] = p
    if TAGS_NOW:
        flags = flags + ["-tags", ",".join(TAGS_NOW)]
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f: json.dump({"Replace": rep}, f)
    exe = os.path.join(scratch, "verif-" + name)
    r = subprocess.run(["go", "build", "-overlay", ov, "-o", exe] + flags + ["./internal/zzverif"],
                       cwd=REPO, env=env, capture_output=True, text=True)
    return (exe if r.returncode == 0 else None), r.stdout + r.stderr

TAGS_NOW, PROP_NOW = [], ["F", "F01"]
# which harness files a family of properties needs, so that its check depends on
# no package it does not speak about
FILES = {"F": ("fw", "main", "big", "fe_", "f_"), "C": ("fw", "main", "big", "fe_", "cu_", "c_"),
         "S": ("fw", "main", "big", "fe_", "cu_", "s_"), "X": ("fw", "main", "big", "fe_kin", "x_"),
         "E": ("fw", "main", "e_"), "M": ("fw", "main", "big", "fe_", "cu_", "m_"),
         "M01": ("fw", "main", "big", "fe_", "cu_", "s_fmt", "e_", "x_exp", "r_")}
files_of = lambda prop: FILES["M01"] if SMALL[0] else ("",) if prop == "M01" else FILES.get(prop) or FILES.get(prop[0]) or ("",)

def main():
    sys.stdout.reconfigure(errors="replace")
    args = sys.argv[1:]
    if not args: print(__doc__); return 2
    if args[0] == "--setup":  # nothing is prepared: every check builds what it needs
        with tempfile.TemporaryDirectory(prefix="verif-setup-") as d:
            return subprocess.run(["go", "version"], env=go_env(d)).returncode
    prop = args[0]
    PROP_NOW[:] = [prop[0], prop]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    opt = lambda n: args[args.index(n) + 1] if n in args else None
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"[0-9]{1,19}", seed): seed = "1"
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    replaydir = os.path.join(VERIF, "evidence", "replay")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        env = go_env(scratch)
        flags = ["-race"] if prop in RACE else []
        status = 0
        flavours = [("plain", [])]
        if prop in TAGS: flavours = [("plain", []), ("tags", TAGS[prop])]
        for name, tags in flavours:
            TAGS_NOW[:] = tags
            exe, log, dropped = build(scratch, env, flags, name)
            if exe is None:
                print("harness does not build against this tree; no verdict"); print(log[-6000:]); return 2
            if dropped: print("note: the tree does not fit these parts of the in-package bridge, built without:", [os.path.basename(p[1]) for p in dropped])
            cmd = [exe, "-prop", prop, "-tier", tier, "-seed", seed, "-out", evidence,
                   "-known", os.path.join(VERIF, "known_findings.txt"), "-replaydir", replaydir]
            if opt("--replay"): cmd += ["-replay", opt("--replay")]
            for o in ("scale", "group", "case"):
                if opt("--" + o): cmd += ["-" + o, opt("--" + o)]
            renv = dict(env)
            renv["GOTRACEBACK"] = "all"
            renv["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3"
            renv["VERIF_FLAVOUR"] = name
            renv["VERIF_SCRATCH"] = scratch
            s = run(cmd, renv, prop, replaydir, scratch, evidence, tier, seed)
            if s == 1: return 1
            status = status or s
        return status
    finally:
        subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)

def report(prop, replaydir, key, text):
    os.makedirs(replaydir, exist_ok=True)
    path = os.path.join(replaydir, "%s-%s.json" % (prop, key))
    with open(path, "w") as f:
        json.dump({"property": prop, "key": key, "message": text[-20000:]}, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))

def run(cmd, env, prop, replaydir, scratch, evidence, tier, seed):
    before = time.time()
    p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE,
                         stderr=open(os.path.join(scratch, "stderr"), "wb"), text=True, errors="replace")
    out = []
    for line in p.stdout:
        out.append(line); sys.stdout.write(line); sys.stdout.flush()
    rc = p.wait()
    with open(os.path.join(scratch, "stderr"), errors="replace") as f: err = f.read()
    if rc == 0 and "WARNING: DATA RACE" not in err:
        if os.environ.get("VERIF_VERBOSE"): sys.stderr.write(err)
        return 0
    if rc == 1 and any(l.startswith("VIOLATION ") for l in out): return 1
    if "WARNING: DATA RACE" in err:
        sites = []
        for m in re.finditer(r"WARNING: DATA RACE\n(.*?)\n={10,}", err, re.S):
            fr = [x for x in re.findall(r"^  ([\w./*()\[\]·-]+)\(", m.group(1), re.M) if "Bandersnatch" in x and "zzverif" not in x]
            sites.append(" / ".join(dict.fromkeys(x.split("/")[-1] for x in fr)) or "harness")
        # a race without a frame of the code under test would be the harness's own
        if any(s != "harness" for s in sites) or not sites:
            report(prop, replaydir, "race", err)
            for s in dict.fromkeys(sites): print("  data race:", s)
            return 1
        print("data race reported in the harness only; no verdict"); print(err[-4000:]); return 3
    fatal = re.search(r"^(fatal error: .*|panic: .*|SIGSEGV.*|unexpected fault address.*)$", err, re.M)
    if fatal and "out of memory" not in fatal.group(1) and rc == 2:
        # the first goroutine's trace tells whose fault it is
        if "GottfriedHerold/Bandersnatch/bandersnatch" in err or "GottfriedHerold/Bandersnatch/internal/" in err.replace("internal/zzverif", ""):
            report(prop, replaydir, "crash", err)
            print("  crash:", fatal.group(1))
            return 1
    print("check ended with status %s; no verdict" % rc); print(err[-4000:])
    return 3

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    sys.exit(main())
