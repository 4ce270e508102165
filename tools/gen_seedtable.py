#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = set(open(V + "/tools/first_missed.txt").read().split()) if os.path.exists(V + "/tools/first_missed.txt") else set()
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"].replace("|", "/"), ("caught after strengthening" if i in MISSED else "caught")))
rows.sort()
s = open(V + "/DESIGN.md").read()
mark = "<!-- seeds -->\n"
head = s.split(mark)[0]
t = "| check | change | needs | result |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(V + "/DESIGN.md", "w").write(head + mark + t)
