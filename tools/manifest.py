#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties and the checks built."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, rest = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": NOTES[pid]["technique"],
            "level": "model_checking",
            "level_note": NOTES[pid]["note"]})
    else:
        rest.append({"property": pid, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
       "not_applicable": rest,
       "notes": "TLA+ specifications in spec/ (TLC), conformance harness in "
                "harness/. No hooks in /repo: every observable is returned by "
                "the public API."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fout:
    json.dump(man, fout, indent=1)
    fout.write("\n")
