#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "stateful property-based testing of edit histories against a plain-text model, plus small-scope enumeration",
 "C02": "stateful property-based testing against a provenance model, plus small-scope enumeration",
 "C03": "stateful property-based testing of families of related objects, all re-examined after every step",
 "C04": "property-based testing over edit histories and all range pairs against interval arithmetic on the model",
 "C05": "property-based testing over edit histories and nested slices against model windows",
 "C06": "property-based testing with scripted partitions and real patterns against a direct definition of each behaviour",
 "C07": "property-based testing over histories against the inverse of the model's alignments",
 "C08": "property-based testing and small-scope enumeration against independent matchers and a partition predicate",
 "C09": "property-based testing against per-character definitions, enumeration of every code point",
 "C10": "property-based testing against per-character definitions, enumeration of every code point and option set",
 "C11": "property-based testing against hand-written segmenters, enumeration of every code point",
 "C12": "round-trip (decoding) and reference segmentation over generated texts, every byte and every code point",
 "C13": "round-trip and reference segmentation over generated texts and marks, every code point",
 "C14": "model-based testing of operation histories with scripted callbacks",
 "C15": "property-based testing against composed reference models",
 "C16": "property-based testing against a rune-wise greedy reference",
 "C17": "differential property-based testing against naive quadratic BPE",
 "C18": "differential property-based testing against a naive reference",
 "C19": "property-based testing with a derivability predicate over random dropout outcomes, frequency test with wide bounds",
 "C20": "stateful property-based testing against fresh objects and fresh processes; generated concurrent histories under the race detector",
 "C21": "model-based testing of add/lookup/load histories, generated malformed files",
 "C22": "property-based testing of generated merge files and injected defects against a reference parser",
 "C23": "property-based testing over all index pairs of generated texts, every code point",
 "C24": "end-to-end property-based testing: composed reference models and a metamorphic re-normalization relation",
 "C25": "fuzzing with arbitrary bytes, structure-aware generators, invariants as oracle",
 "C26": "property-based fault injection into callbacks at generated points of generated histories against a list model",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "technique": T[i],
        "level": "exploration",
        "level_note": "Shows the presence of violations on generated (and small exhaustively enumerated) cases, not their absence in general; trusts the reference model in harness/ref, Go's Unicode tables, regexp and regexp2 v1.4.0.",
    })
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the exported API of the working tree in /repo. VERIF_SEED and VERIF_TIER are honoured. Replay a saved case with ./run.sh replay FILE."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
