"""Writes MANIFEST.json from the checks there are."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # noqa: E402

NOTES = {}
exec(open(os.path.join(HERE, "notes.py")).read(), NOTES)
props = [json.loads(line) for line in open(os.path.join(HERE, "..", "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "One driver (check.py) for all properties; the specifications are in spec/, see DESIGN.md. No hooks in /repo are needed: "
                "everything is observed through the public API, interpreter audit events and trace functions."}
for p in props:
    pid = p["id"]
    if hasattr(checks, pid):
        n = NOTES["NOTES"].get(pid, {})
        out["checks"].append({
            "property": pid,
            "quick_cmd": "python3 check.py %s quick" % pid,
            "thorough_cmd": "python3 check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": n.get("technique", NOTES["TECHNIQUE"]),
            "level": n.get("level", "model_checking"),
            "level_note": n.get("note", NOTES["NOTE"]),
        })
    else:
        out["not_applicable"].append({"property": pid, "reason": NOTES["MISSING"].get(pid, "no check is registered yet")})
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
