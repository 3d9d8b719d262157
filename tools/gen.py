#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property
without checks/<id>.py is listed under not_applicable."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.dont_write_bytecode = True
sys.path.insert(0, here)
import props

checks, na = [], []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    i = p["id"]
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    t, l, n = props.TECH[i]
    if os.path.exists(os.path.join(verif, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": getattr(props, "NA", {}).get(i, "check not built yet")})
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md. No hooks are needed in /repo: file operations are intercepted at the libc boundary."},
              f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
