"""Regenerate MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet; the family applies (see DESIGN.md)"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Property-based testing with reference models over the real contracts in an in-memory chain; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
