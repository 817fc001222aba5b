#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py.
usage: gen.py   (claims the properties named in tools/claimed.txt)"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "props.py")).read(), ns)
claimed = open(os.path.join(here, "claimed.txt")).read().split()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in ns["P"]:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in ns["P"]:
    if p["id"] in claimed:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} {p['feature']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} {p['feature']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or ns.get("NA", {}).get(p["id"], "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks are needed: every check drives public interfaces", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
