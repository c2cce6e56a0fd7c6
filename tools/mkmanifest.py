#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks = []
for pid, (tech, level, note) in sorted(LEVELS.items()):
    checks.append({"property": pid, "quick_cmd": "./check.sh %s quick" % pid, "thorough_cmd": "./check.sh %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": p, "reason": "check under construction"} for p in props if p not in LEVELS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the public interface (hooks of the options, readers, writers, extensions), the process (goroutines, descriptors, race detector, memory, time) and the generator's output. Genuine defects are repaired in fix: commits, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
