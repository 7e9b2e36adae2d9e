#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contract modules present, and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if n.get("not_applicable"):
        na.append({"property": i, "reason": n["not_applicable"]})
    elif os.path.exists(os.path.join(HERE, "vc", "contracts", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": n.get("technique", "contract-based deductive verification: obligations generated from /repo's source, discharged by normaliser + z3 + cvc5"),
                       "level": n.get("level", "proof"), "level_note": n.get("note", "see DESIGN.md"), **({"theorems": n["theorems"]} if "theorems" in n else {})})
    else:
        na.append({"property": i, "reason": "contracts not written yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts are external and the verified text is /repo's source, parsed on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
