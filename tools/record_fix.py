#!/usr/bin/env python3
"""record_fix.py PROPERTY COMMIT...: lists repairs in known_findings.json"""
import json, re, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
have = " ".join(f["what"] for f in d["findings"])
for c in sys.argv[2:]:
    m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, s = m.split(" ", 1)
    assert s.startswith("fix: ")
    if h in have: continue
    d["findings"].append({"property": sys.argv[1], "id": "fixed-" + h, "status": "fixed", "what": "fixed: property=%s %s %s" % (sys.argv[1], h, s[5:])})
with open(p, "w") as f:
    f.write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + "\n ]\n}\n")
