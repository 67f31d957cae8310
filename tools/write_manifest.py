"""Regenerates MANIFEST.json from properties.jsonl and the property modules present in harness/props."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "S10": ("compiler sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer) on the compiled components under generated and hostile call sequences", None),
}
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i + ".py")):
        tech, note = TECH.get(i, ("runtime monitor with an independent oracle over generated workloads", "Executions explored only; the oracle and its tolerances are trusted."))
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks import smt from /repo's working tree with the C++ extensions compiled afresh into /verif/build; no hooks are committed in /repo, monitors wrap public calls, numpy/scipy entry points and file objects at run time."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
