#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/suites.py and tools/notes.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import SUITES
from notes import NOTES, TODO
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in SUITES:
        tech, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid,
                       "thorough_cmd": "python3 run.py %s thorough" % pid,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": TODO})
m = {"version": 1, "setup_cmd": "python3 -c pass", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument it from outside (compiler "
              "instrumentation and link-time wrapping). Every check builds from /repo/src "
              "into /verif/build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
