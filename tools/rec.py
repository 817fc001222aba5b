#!/usr/bin/env python3
"""rec.py PROP COMMIT [COMMIT...]: record fix commits in known_findings.jsonl by their subject"""
import sys, json, subprocess
for c in sys.argv[2:]:
    h, t = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h\t%s", c], text=True).strip().split("\t")
    assert t.startswith("fix:")
    open("/verif/known_findings.jsonl", "a").write(json.dumps({"fixed": f"property={sys.argv[1]} {h} (defect repaired) {t[5:]}"}) + "\n")
