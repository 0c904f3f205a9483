#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import mpmath' && python3-vt -m compileall -q aeslint >/dev/null; true",
     "checks": [{"property": p["id"], "quick_cmd": f"python3-vt run.py {p['id']} --tier quick", "thorough_cmd": f"python3-vt run.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks are static: abstract interpretation / value numbering of /repo's source (aeslint). Nothing in /repo is executed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

import subprocess
subprocess.check_call([sys.executable, os.path.join(V, "meta", "design.py")])
