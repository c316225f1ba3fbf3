"""writes /verif/MANIFEST.json from the check modules"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

checks = []
idents = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
missing = []
for ident in idents:
    path = os.path.join(ROOT, "mc", "checks", ident.lower() + ".py")
    if not os.path.exists(path):
        missing.append(ident)
        continue
    module = importlib.import_module("mc.checks." + ident.lower())
    checks.append({
        "property": ident,
        "quick_cmd": f"./run.sh {ident}",
        "thorough_cmd": f"./run.sh {ident} --tier thorough",
        "technique": module.TECHNIQUE,
        "level": getattr(module, "LEVEL", "model_checking"),
        "level_note": module.NOTE,
    })
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [
        {"property": ident, "reason": "check not built yet"} for ident in missing],
    "notes": "No hooks in /repo are needed: git commands, locks, the clock and processes are "
             "controlled from outside (see DESIGN.md).",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
