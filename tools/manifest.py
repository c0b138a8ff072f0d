#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/checks.json-like table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the libc/pthread symbols interposed by /verif's executable", "source_commits": HOOK_COMMITS},
     "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
     "notes": "Every check builds /repo's working tree with /verif/tools/build.py and runs seeded simulations; see DESIGN.md."}
for pid, c in CHECKS.items():
    m["checks"].append({"property": pid, "quick_cmd": f"python3 tools/check.py {pid} quick", "thorough_cmd": f"python3 tools/check.py {pid} thorough",
                        "evidence_file": f"evidence/{pid}.json", "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
missing = [i for i in ids if i not in CHECKS and i not in NOT_APPLICABLE]
both = [i for i in ids if i in CHECKS and i in NOT_APPLICABLE]
print("claimed", len(CHECKS), "n/a", len(NOT_APPLICABLE), "missing", missing, "both", both)
