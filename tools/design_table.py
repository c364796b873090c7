#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")): t.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
s = open(V + "/DESIGN.md").read(); k = "| property | planted bugs caught by its quick check |\n|---|---|\n"
s = s[:s.index(k)] + k + "".join("| %s | %s |\n" % (p, ", ".join(t[p])) for p in sorted(t))
open(V + "/DESIGN.md", "w").write(s)
