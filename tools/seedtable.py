#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
by = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    by.setdefault(d["property"], []).append((f.split("/")[1], d["needs"]))
t = ["| check | planted bug | needs |", "|---|---|---|"]
for p in sorted(by):
    for n, needs in by[p]:
        t.append(f"| {p} | {n} | {needs} |")
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda m: "<!-- seeds -->\n" + "\n".join(t) + "\n<!-- end -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
