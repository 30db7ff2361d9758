#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed checks (lib/props.py)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in props.CHECKS:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(
            i, "the specification and its conformance check are under construction")})
        continue
    t, n, l = props.DESCR[i]
    checks.append({"property": i,
                   "quick_cmd": "python3 run.py check %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                   "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: yield points are "
               "inserted at build time through a go build -overlay generated "
               "from the working tree", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. Specifications in spec/, drivers of the real code in "
     "harness/, orchestration in lib/. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
