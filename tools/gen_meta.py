#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [], state=state or []))

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
na = {n for n, _ in NA}
m = {"version": 1, "setup_cmd": "python3 -c \"print('nothing to prepare: every check builds from source')\"",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": "property-based testing: generated inputs against an explicit oracle, with shrinking",
                 "level": "exploration", "level_note": p["note"]} for p in P if p["id"] not in na and os.path.exists(os.path.join(HERE, "checks", p["id"] + ".cpp"))],
     "not_applicable": [{"property": n, "reason": r} for n, r in NA],
     "notes": "No hooks: every check uses public interfaces of the headers in /repo/src and recompiles them on every run."}
missing = [p["id"] for p in P if p["id"] not in na and not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".cpp"))]
assert not missing, missing
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
