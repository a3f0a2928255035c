#!/usr/bin/env python3
"""Summarise simrun output files: violation classes with examples (smallest first)."""
import collections
import glob
import json
import sys
c = collections.defaultdict(list)
n = nt = 0
for pat in sys.argv[1:]:
    for fn in glob.glob(pat):
        for l in open(fn):
            d = json.loads(l)
            n += 1
            nt += d["nontrivial"]
            if d.get("nondeterministic"):
                c["NONDET"].append((0, d["seed"], "", ""))
            for v in d["violations"][:1]:
                c[d["scenario"] + ":" + v["class"]].append((len(d["W"]) * 3 + len(d["S"]), d["seed"], v["detail"][:500], d.get("sample", "")[:400]))
print(n, "runs,", nt, "nontrivial")
for k in sorted(c, key=lambda k: -len(c[k])):
    print(" ", k, "x%d" % len(c[k]))
    for e in sorted(c[k])[:2]:
        print("     ", *e[1:])
