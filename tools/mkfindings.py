#!/usr/bin/env python3
"""Writes known-findings.jsonl from the fix commits in /repo (each commit's property is given below)."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
RULES = json.load(open(os.path.join(here, "fixes.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "93d3fe6.."], text=True).splitlines()
with open(os.path.join(here, "..", "known-findings.jsonl"), "w") as f:
    for l in log:
        h, s = l.split(" ", 1)
        assert s.startswith("fix: "), s
        s = s[5:]
        p = RULES[s]
        f.write(json.dumps({"status": "fixed", "property": p, "entry": "fixed: property=%s %s the tool did not %s" % (p, h, s)}) + "\n")
