#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TRACE = "TLA+ specification checked with TLC; behaviours generated by TLC replayed on the real code, recorded traces validated by TLC"
claims = {
 "C01": (TRACE, "Every short history exhaustively and random longer ones, with every file operation failing and every crash point between file operations; the verdict on each recorded trace is TLC's. One fault per history; data written before a crash is assumed to reach the disk."),
 "C02": (TRACE, "All histories of 3 (thorough: 4) operations over 2 names plus seeded random ones over 6 names; sequential use."),
 "C03": (TRACE, "As C02; ties in size or time of use are left free."),
 "C04": (TRACE, "As C02; an age of exactly the limit in whole minutes is left free."),
}
extra = {}
p = os.path.join(root, "tools", "claims.json")
if os.path.exists(p):
    extra = json.load(open(p))
claims.update({k: (v.get("technique", TRACE), v["note"]) for k, v in extra.get("claims", {}).items()})
na = extra.get("not_applicable", {})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": [], "not_applicable": []}
for q in props:
    i = q["id"]
    if i in claims:
        t, n = claims[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "the check for this property is not built yet")})
m["notes"] = "No hooks in /repo: the harness drives public packages and the built program. See DESIGN.md."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
