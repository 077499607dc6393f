#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/build.json, properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
built = json.load(open(f"{V}/checks/build.json"))
notes = json.load(open(f"{V}/tools/notes.json"))
checks = []
for p in props:
    if p not in built:
        continue
    n = notes[p]
    checks.append(dict(property=p, quick_cmd=f"python3 lib/check.py {p} quick", thorough_cmd=f"python3 lib/check.py {p} thorough",
        evidence_file=f"evidence/{p}.json", technique="property-based testing: " + n["technique"], level="exploration",
        level_note="Generated-input search, not a proof. " + n["note"]))
na = [dict(property=p, reason=notes.get(p, {}).get("na", "No check has been built for this property yet.")) for p in props if p not in built]
m = dict(version=1, setup_cmd="python3 lib/check.py setup", checks=checks, not_applicable=na,
    notes="Every check compiles /repo's current headers and sources together with a generator and an oracle from checks/ (see DESIGN.md).")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
