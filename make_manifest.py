#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = {
    "default": "runtime monitoring: executions of the real code watched by a reference oracle",
}
NOTES = {}
exec(open(os.path.join(here, "manifest_notes.py")).read())
checks, missing = [], []
for text in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(text)
    path = os.path.join(here, "mon", "props", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append(dict(property=p["id"], reason="its monitor isn't built yet"))
        continue
    level = re.search(r'^LEVEL = "(.*)"', open(path).read(), re.M).group(1)
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique=TECHNIQUE.get(p["id"], TECHNIQUE["default"]),
        level=level,
        level_note=NOTES.get(p["id"], "held on the executions listed in the evidence"),
    ))
manifest = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=missing)
json.dump(manifest, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(missing), "missing")
