"""Writes MANIFEST.json from properties.jsonl and the rules registered in mm/."""
import sys, os, json, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mm"))
import check
for m in sorted(glob.glob(V + "/mm/rules_*.py")): importlib.import_module(os.path.basename(m)[:-3])
from manifest_notes import NOTES, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.RULES:
        t, note = NOTES.get(i, ("abstract interpretation of the compiler's MIR to value graphs, compared with the property's rule", "decides the obligations listed in the evidence file; see DESIGN.md"))
        checks.append({"property": i, "quick_cmd": "python3 mm/check.py %s" % i, "thorough_cmd": "python3 mm/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "no rule built yet")})
json.dump({"version": 1, "setup_cmd": "python3 mm/facts.py && python3 mm/facts.py --big", "checks": checks, "not_applicable": na,
           "notes": "All checks analyse the compiler's MIR of /repo's current working tree; none of /repo's code is run."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
