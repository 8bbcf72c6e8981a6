#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="other"):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({
            "property": id,
            "quick_cmd": f"./check.py {id} quick",
            "thorough_cmd": f"./check.py {id} thorough",
            "technique": technique, "level": level, "level_note": note,
        })


exec(open(os.path.join(V, "tools", "defs.py")).read())

for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": CHECKS,
               "not_applicable": NA}, f, indent=1)
    f.write("\n")
print(len(CHECKS), "claimed,", len(NA), "not applicable")
