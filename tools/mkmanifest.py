#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/properties.map and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = dict(l.split("#")[0].split() for l in open(os.path.join(V, "harness/properties.map")) if l.split("#")[0].split())
LEVEL = {}
TECH = {
 "conc": "model-based stateful generation under a deterministic thread scheduler",
 "util": "property-based testing against reference models",
 "bytes": "property-based testing against a reference model with sanitizers",
 "meta": "model-based property testing on an emulated metadata tree",
 "addr": "property-based testing against a layout model",
 "hash": "stateful model-based generation, deterministic schedules, fault injection",
 "sim": "generated filesystem images, schedules and faults on a simulated btrfs; whole daemon under a deterministic scheduler",
}
tech_over = {}
note = {}
exec(open(os.path.join(V, "tools/notes.py")).read()) if os.path.exists(os.path.join(V, "tools/notes.py")) else None
m = {"version": 1, "setup_cmd": "python3 check.py --build-all",
     "hooks": {"guard": "none", "enable": "no hooks: the harness links /repo's sources unchanged and interposes libc and pthread symbols", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech_over.get(i, TECH[claimed[i]]),
            "level": LEVEL.get(i, "exploration"),
            "level_note": note.get(i, "Randomized search with a fixed seed over the generator described in DESIGN.md; shows the absence of violations only on the cases explored.")})
    else:
        m["not_applicable"].append({"property": i, "reason": note.get(i, "Machinery not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
