#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
CLAIM = json.load(open(f"{V}/claims.json"))
checks, na = [], []
for p in props:
    c = CLAIM.get(p["id"])
    if c and "na" not in c:
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": c["na"] if c else "check not built yet"})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks build the ludtwig binary and the harness from /repo's working tree into /verif/target (ignored by git). Replay a failure with: target/release/vh replay <file>."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
