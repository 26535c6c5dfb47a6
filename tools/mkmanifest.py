#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, claim, technique="", note="", observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                claim=claim, technique=technique, note=note, observe=observe or [], state=state or [])

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in TABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1,
       "setup_cmd": "bash ./setup.sh",
       "checks": [], "not_applicable": [], "notes": NOTES}
for p in TABLE:
    if p["claim"] is True:
        man["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                              "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["claim"]})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not")
