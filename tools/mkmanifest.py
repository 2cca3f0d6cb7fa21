#!/usr/bin/env python3
"""Regenerate MANIFEST.json from contracts/props.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(here, "contracts", "props.json")))
checks = []
for k, p in c["properties"].items():
    if p.get("not_applicable"):
        continue
    nt = sum(len(g["targets"]) for g in p.get("groups", []))
    tech = p.get("technique") or ("contracts on the extracted Go functions discharged by Verus" + ("" if p["level"] == "proof" else " + bounded stand-in for the functions outside the verifier's reach")) if nt else "bounded stand-in for functions under contract (bounded)"
    checks.append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py %s --thorough" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": tech, "level": p["level"],
                   "level_note": ("Proved: " + p["proved"] + " " if p.get("proved") else "") + ("Bounded: " + p["bounded"] if p.get("bounded") else "") + (" Assumed: " + "; ".join(p["assumptions"]) if p.get("assumptions") else "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": p["not_applicable"]} for k, p in c["properties"].items() if p.get("not_applicable")],
     "notes": "Contracts live in contracts/*.gvc (keyed by function), the specification functions and lemmas in contracts/*.rs; tools/goverus extracts the functions from /repo on every run. No hooks were added to /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
