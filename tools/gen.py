#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in props.CLAIMED + props.NOT_APPLICABLE:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props.CLAIMED:
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                        "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in props.NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(props.CLAIMED), "claimed", len(props.NOT_APPLICABLE), "not applicable")
