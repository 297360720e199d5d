#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
REASON = json.load(open(os.path.join(here, "not_applicable.json")))
NOTES = json.load(open(os.path.join(here, "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    built = any(os.path.exists(os.path.join(root, d, "src/bin", i.lower() + ".rs")) for d in ("harness", "harness_ext"))
    if i in REASON or not built:
        na.append({"property": i, "reason": REASON.get(i, "No check has been built for this property yet; runtime monitoring applies.")})
        continue
    n = NOTES.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"bash /verif/check.sh {i} --tier quick",
        "thorough_cmd": f"bash /verif/check.sh {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n.get("technique", "runtime monitoring: executable reference model as online oracle over randomised operation histories"),
        "level": n.get("level", "exploration"),
        "level_note": n.get("note", "Held on the executions generated in the run (counted in the evidence). Trusts the reference model in harness/src and the Rust toolchain."),
    })
m = {"version": 1, "setup_cmd": "bash /verif/check.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "Random choices derive from VERIF_SEED. Replays: bash /verif/check.sh <id> --replay <path>. No hooks in /repo are needed: every property is observed through the public interface."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
