#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = {}
NA = {}

B, S, O, X = "base/", "string/", "object/", "extra/"

def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
    if na:
        NA[id] = na
    else:
        CLAIMED[id] = (tech, note)

TRUST = (" Assumes: standard library functions behave as modelled, int is 64 bit and lengths and positions do not overflow, "
         "callbacks supplied by the user leave the arguments they are given unchanged. "
         "A part of the source the analysis cannot decide is printed as UNDECIDED and not counted as held.")

AI = "abstract interpretation of Go SSA "

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for d in P:
    i = d["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough",
                            "technique": tech, "level": "other", "level_note": note + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
m["notes"] = "One analyzer (analyzer/) decides all properties from the SSA form of /repo's current source; check.sh <id> runs the units that serve a property."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(m["checks"]), "claimed", len(NA), "not applicable")
