#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json and the notes below"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, "tools", "caught.json")))
L = ["| planted bug | property | needs | caught by its quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    L.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), NOTE.get(d, "?")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- table:begin -->\n).*?(<!-- table:end -->)", lambda g: g.group(1) + "\n".join(L) + "\n" + g.group(2), s, flags=re.S)
open(p, "w").write(s)
