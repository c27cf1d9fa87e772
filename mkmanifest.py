"""Regenerates MANIFEST.json from properties.jsonl and the modules in vlib/props."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(here, "vlib", "props", p["id"] + ".py")
    if not os.path.exists(path):
        missing.append(p["id"])
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "bash check.sh " + p["id"],
            "thorough_cmd": "bash check.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing: generated cases against an independent reference, shrunk to a replay file",
            "level": "exploration",
            "level_note": "Decides the generated inputs only; generators, oracle and bounds are described under %s in DESIGN.md." % p["id"],
        }
    )
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check runs against the working tree of /repo (pure Python, imported in place). Replay: bash check.sh <ID> --replay <file>.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks; without a check:", missing)
