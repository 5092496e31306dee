#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep", "observation hooks"], capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    i = p["id"]
    if i not in plan.NOTES:
        continue
    tech, note = plan.NOTES[i]
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                   "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p["id"], "reason": plan.NOT_APPLICABLE.get(p["id"], "no check yet")} for p in props if p["id"] not in plan.NOTES]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg vp_hooks", "enable": "harness/.cargo/config.toml passes --cfg vp_hooks to rustc", "source_commits": hook},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked by TLC; see DESIGN.md. tools/check.py runs every check."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
