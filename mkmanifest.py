#!/usr/bin/env python3
"""writes MANIFEST.json from props_config.py"""
import json, os
from props_config import PROPS, NOT_APPLICABLE, NOTES
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, c in sorted(PROPS.items()):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, weak-memory outcomes and faults, "
                     "real library code in a simulated single-process world; " + c.get("technique", ""),
        "level": "exploration",
        "level_note": c.get("note", "") or "Sampled exploration: evidence, not proof.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())], "notes": NOTES}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
