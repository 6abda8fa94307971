#!/opt/venv/bin/python
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.registry import CHECKS, NOTES  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        mod, fun, level = CHECKS[i]
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries no instrumentation; the commits to /repo are repairs of genuine defects only (see KNOWN_FINDINGS)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
