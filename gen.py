#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from defs/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p in sorted(glob.glob(V + "/defs/*.json")):
    d = json.load(open(p))
    props.append({k: d[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if d.get("not_applicable"):
        na.append({"property": d["id"], "reason": d["not_applicable"]})
    else:
        checks.append({"property": d["id"], "quick_cmd": "python3 checks/run.py " + d["id"], "thorough_cmd": "python3 checks/run.py " + d["id"],
                       "technique": d["technique"], "level": "other", "level_note": d["level_note"]})
    assert len(d["title"]) <= 80, d["id"]
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/extract.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "claimed")
