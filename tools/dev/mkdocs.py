#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        mech = [dict(name=n, where=w) for n, w in p["mech"]]
        a = dict(files=p["files"], mechanism=mech, observe_at=p["observe"])
        if p.get("hook"):
            a["hook_needed"] = p["hook"]
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
               technique=p["technique"], level=p.get("level", "model_checking"), level_note=p["note"], evidence_file=f"evidence/{p['id']}.json")
          for p in PROPS if p["id"] not in {n["property"] for n in NOT_APPLICABLE}]
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/check.py build", hooks=HOOKS, checks=checks, not_applicable=NOT_APPLICABLE), f, indent=1)
    f.write("\n")
