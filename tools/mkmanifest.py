#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (run by hand after changing either)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, META
V = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = {}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py",
     "hooks": {"guard": "JITFUSION_VERIF_GUARD_ARENA",
               "enable": "tools/vbuild.py compiles /repo's sources itself; the asan variant adds -DJITFUSION_VERIF_GUARD_ARENA",
               "source_commits": hook},
     "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
                 "technique": META[p]["technique"], "level": META[p]["level"], "level_note": META[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "No random choice is made anywhere; VERIF_SEED is echoed into the evidence. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
