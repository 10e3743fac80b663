#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, statement, over, why, files, mech, level="proof", note="", claimed=True, na="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                  level=level, note=note, claimed=claimed, na=na, state=state))

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        a = {"files": x["files"], "mechanism": x["mech"]}
        if x["state"]:
            a["state"] = x["state"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": ["inputs"] + x["over"][1:], "text": x["over"][0]},
            "why_tests_cant": x["why"], "anchors": a}, ensure_ascii=False) + "\n")

TECH = "contract-based deductive verification of the real code (go/ssa -> verification conditions -> cvc5/z3)"
m = {"version": 1,
     "setup_cmd": "./setup",
     "checks": [], "not_applicable": []}
for x in P:
    if x["claimed"]:
        m["checks"].append({"property": x["id"], "quick_cmd": "./check " + x["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + x["id"],
            "evidence_file": "evidence/%s.json" % x["id"],
            "technique": TECH, "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
m["notes"] = open(os.path.join(V, "tools", "notes.txt")).read().strip()
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
