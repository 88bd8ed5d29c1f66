#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = json.load(open(f"{V}/contracts/props.json"))
NA = json.load(open(f"{V}/contracts/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
TECH = "contract-based deductive verification: Verus discharges contracts spliced onto the functions extracted from /repo on every run; runtime replay of the same contracts on the real code finds failing inputs"
checks = [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": TECH, "level": P[i].get("level", "proof"),
           "level_note": P[i].get("note", "every function listed in the evidence is verified against its contract for all inputs; std collections, locks and tokio are assumed contracts")} for i in ids if i in P]
na = [{"property": i, "reason": NA.get(i, "not claimed yet: the check is still being built")} for i in ids if i not in P]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the extractor and the replay harness from /repo's current tree into /verif/build. An obligation that fails on code whose structure changed is reported as undecided unless the replay finds a failing input."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
