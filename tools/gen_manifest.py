#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {}
for l in open(V + "/tools/techniques.txt"):
    if "|" in l and not l.startswith("#"):
        i, level, tech, note = [x.strip() for x in l.split("|", 3)]
        T[i] = (level, tech, note)
checks, na = [], []
src = "".join(open(V + "/harness/" + f).read() for f in os.listdir(V + "/harness") if f.endswith(".go"))
for p in props:
    i = p["id"]
    if re.search(r'register(Fault)?\("%s"' % i, src) and i in T:
        level, tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no guarded code is committed in /repo: harness packages are added to the build by 'go build -overlay' (internal/zzverif, and bandersnatch/pointserializer/zz_verif_bridge.go under tag verifbridge, both kept in /verif)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One Go harness, built from /repo's working tree for every check; see DESIGN.md. Known and fixed findings: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
