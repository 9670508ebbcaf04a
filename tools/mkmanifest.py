"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
NA = {}
TECH = {}
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "mc", "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    src = open(f).read()
    m = re.search(r'TECHNIQUE = \(?"(.*?)"\)?\n', src, re.S)
    tech = m.group(1) if m else ("explicit-state exploration: exhaustive enumeration of a bounded configuration space on the "
                                 "real code, every result compared with an independent reference model")
    tech = re.sub(r'"\s*\n\s*"', "", tech)
    checks.append({
        "property": pid,
        "quick_cmd": f"/verif/check.sh {pid} quick",
        "thorough_cmd": f"/verif/check.sh {pid} thorough",
        "technique": tech,
        "level": "model_checking",
        "level_note": "exhaustive within the bounds stated in the evidence file and DESIGN.md; the real functions are executed on every state, no sampling",
        "evidence_file": f"/verif/evidence/{pid}.json",
    })
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "Every check imports discorpy from /repo's working tree (pure Python, no build) and runs offline with /opt/venv/bin/python. "
                "Replay: /verif/check.sh <ID> replay <file>."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
