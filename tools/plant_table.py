#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/plant_results.json."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(H, "tools", "plant_results.json")))
rows = ["<!-- plants -->", "| bug | property | needs | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(i, "not run yet")))
rows.append("<!-- /plants -->")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
s = re.sub(r"PLANT_TABLE|<!-- plants -->.*?<!-- /plants -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
