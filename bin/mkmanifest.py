#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "python3 bin/build.py",
     "hooks": {"guard": "none: no source hooks, every seam is at compile or link time", "enable": "bin/build.py compiles /repo's sources with its own flags; nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": "deterministic simulation with fault injection: seeded search over " + NOTES[i][0], "level": PROPS[i]["level"], "level_note": NOTES[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
