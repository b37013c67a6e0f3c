#!/usr/bin/env python3
"""Regenerates MANIFEST.json from jobs.CHECKS; every property without a check goes to not_applicable."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs, mkprops
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in mkprops.P:
    c = jobs.CHECKS.get(p["id"])
    if not c: continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "technique": c.get("technique", "runtime monitoring: reference-model oracle over generated programs and histories"),
                   "level": c.get("level", "exploration"),
                   "level_note": c.get("note", "held on the executions of the run, counted in the evidence; trusts the harness's model, the pinned toolchain and that the generated workloads are representative")})
na = [{"property": p["id"], "reason": jobs.NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in mkprops.P if p["id"] not in jobs.CHECKS]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
if getattr(jobs, "HOOKS", None): m["hooks"] = jobs.HOOKS
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
