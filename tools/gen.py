#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    c = f"python3-vt engine/check.py {p['id']}"
    checks.append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c, evidence_file=f"evidence/{p['id']}.json", technique=props.TECH, level=p.get("level", "proof"),
                       level_note=p.get("note", "") + props.NOTE))
json.dump(dict(version=1, setup_cmd="python3-vt engine/setup.py", checks=checks, not_applicable=na, notes=props.NOTES), open(V + "/MANIFEST.json", "w"), indent=1)
