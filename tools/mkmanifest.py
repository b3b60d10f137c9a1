#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/groups."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
groups = {}
for l in open(os.path.join(root, "harness/groups")):
    f = l.split()
    if len(f) >= 2:
        groups[f[0]] = f[1]
notes = json.load(open(os.path.join(here, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in groups:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick bin/check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor works on exported APIs. Packages of /repo whose dependencies are not in the module cache are compiled against the stand-ins in shims/."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", len(na), "not")
