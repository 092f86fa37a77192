#!/usr/bin/env python3
"""Writes ../MANIFEST.json from plan.PLAN."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, root)
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in plan.PLAN:
        na.append({"property": i, "reason": "no monitor built yet"}); continue
    s = plan.PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": s.get("technique", "runtime monitoring: reference-model oracle over seeded histories under ASan+UBSan"),
                   "level": s.get("level", "exploration"),
                   "level_note": s.get("note", "Held on the sampled executions only. " + "; ".join(s.get("assumptions", [])) + ".")})
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public interface, user-supplied types, allocators and sanitizers. Every check compiles the headers of /repo's working tree."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
