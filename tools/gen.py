#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for i, p in PROPS.items():
        assert len(p["title"]) <= 80, i
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n["entry"]) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "KRATOS_VERIF", "enable": "no hooks were needed: /repo/src is compiled unchanged with sanitizers by tools/build.py", "source_commits": []},
     "checks": [], "not_applicable": [{"property": n["entry"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
for i, p in PROPS.items():
    m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
