#!/usr/bin/env python3
"""Writes harness/e_shapes.go: error data struct types of many shapes (deep and
wide embedding, shadowing along a path). Deterministic."""
import os, random
r = random.Random(20240611)
TYPES = ["int", "string", "bool", "[]byte", "*int", "uint8", "float64", "pairVal", "namedInt", "interface{}", "error", "map[string]int", "[2]uint16"]
out, ops = [], []
for n in range(18):
    root = "sh%d" % n
    cnt = [0]
    deep = [0, 1, 2, 4, 6, 9][n % 6]
    wide = 1 + n // 6
    names = [0]

    def make(level, path):
        me = root if level == 0 else "%sL%d_%d" % (root, level, cnt[0])
        cnt[0] += 1
        parts = []
        own = []
        for _ in range(r.randint(0 if level < deep else 1, 2 + wide)):
            if path and r.random() < 0.2:  # field that an enclosing struct shadows
                f = r.choice(path)
            else:
                f = "F%d" % names[0]
                names[0] += 1
            if f in own:
                continue
            own.append(f)
            parts.append("%s %s" % (f, r.choice(TYPES)))
        # a name shadowed on this level must not appear in a sibling subtree, so
        # children only repeat names of their own ancestors
        kids = []
        if level < deep:
            kids = [True] + [r.random() < 0.4 for _ in range(wide - 1)]
        budget_ok = cnt[0] < 25
        for i, k in enumerate(kids):
            if k and (i == 0 or budget_ok):
                lv = level + 1 if i == 0 else deep  # the others are leaves
                parts.append(make(lv, path + own))
        r.shuffle(parts)
        out.append("type %s struct {\n%s}\n" % (me, "".join("\t%s\n" % p for p in parts)))
        return me

    make(0, [])
    ops.append('mkOps[%s]("%s")' % (root, root))
src = "package main\n\n// Code generated by tools/gen_shapes.py. DO NOT EDIT.\n\n" + "\n".join(out) + "\nvar eShapes = []*structOps{\n" + "".join("\t%s,\n" % o for o in ops) + "}\n"
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "e_shapes.go")
open(p, "w").write(src)
