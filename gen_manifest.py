#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present under mc/checks."""
import json, os
from design_notes import N
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECHNIQUE = {
    "model": "bounded exhaustive model checking: every definition and command line within the bounds is run through an explicit "
             "reference model and through the real library, and every observation is compared (trace conformance on each execution)",
    "direct": "bounded exhaustive exploration of the real code (stateless model checking): every case within the bounds is executed "
              "and judged by an independent oracle",
    "metamorphic": "bounded exhaustive exploration of the real code (stateless model checking): every pair of related executions "
                   "within the bounds is run and compared",
    "fault": "bounded exhaustive fault enumeration on the real code: every point of failure (allocation, client call, stream write) of "
             "every explored history is struck once, and the outcome compared with the undisturbed run",
    "schedule": "bounded exhaustive schedule enumeration on the real code under a controlled scheduler (all switches at client calls up "
                "to a preemption bound, all nestings); stretches between switches shown free of conflicting accesses pairwise",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mc/checks", i + ".cpp")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    kind, how, _ = N[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                   "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": TECHNIQUE[kind],
                   "level": "model_checking",
                   "level_note": "Complete within the bounds that the evidence file lists per family, nothing is claimed beyond them. " + how})
json.dump({"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
