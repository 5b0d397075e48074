#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = subprocess.run([os.path.join(root, "target/debug/harness"), "list"], capture_output=True, text=True).stdout.split()
NA = {}
TECH = {
 "C13": "proptest stateful (model-based) testing: histories of operations on lanes against a model",
 "C14": "proptest with fault injection: callback panics at enumerated/sampled call positions",
 "C17": "proptest with adaptive adversary inputs and callback counting against bounds",
 "C18": "proptest with counting global allocator",
 "C19": "proptest metamorphic testing: repetition and pool sizes",
 "C22": "proptest with generated schedule perturbation (delays, pool sizes) under ThreadSanitizer",
 "C23": "proptest with hostile callbacks and indices under AddressSanitizer and MemorySanitizer",
 "C24": "proptest metamorphic testing: generated trees of nested and concurrent operations against each on its own",
 "C20": "proptest differential testing across feature sets, build profiles and stack sizes",
}
NOTE = {}
checks = []
for p in props:
    if p["id"] not in claimed: continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i, "property-based testing (proptest) with an explicit oracle"),
        level="exploration",
        level_note=NOTE.get(i, "No violation among the generated cases counted in the evidence file; trusts the harness's oracle, which does not use the code under test, and samples thread schedules only as they occur.")))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in claimed]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks: everything is observed through the public API. known_findings.json lists the repaired defects.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [n["property"] for n in na])
