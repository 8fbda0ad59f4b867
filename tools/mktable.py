#!/usr/bin/env python3
"""Adds the rows of DESIGN.md's table of planted bugs that are missing: mktable.py [missed-ID...]"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
head, rest = s.split("| --- | --- | --- | --- |\n", 1)
rows = [l for l in rest.split("\n") if l.startswith("| ")]
after = rest[rest.rindex("\n".join(rows[-1:])) + len(rows[-1]):]
have = {r.split("|")[1].strip(): r for r in rows}
for i in sorted(os.listdir(V + "/seeded")):
    if i not in have:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        have[i] = "| %s | %s | %s | %s |" % (i, m["property"], m["needs"], "yes" if i in sys.argv else "")
open(p, "w").write(head + "| --- | --- | --- | --- |\n" + "\n".join(have[i] for i in sorted(have)) + after)
