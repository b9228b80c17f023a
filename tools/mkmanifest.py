#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = ("Every path through the compiler and the evaluator is analysed for each path template, for all documents and all values of the symbolic literals; "
        "undecided cases are violations. Bounded by the path templates (listed in the evidence). Trusts the analyser, its models of the standard library, "
        "and that the generated parser follows the grammar.")
SEL = "abstract interpretation of go/ssa with linear and node-term domains; comparison of the callback events with the selection rule"
CLAIMED = {
 i: (SEL, NOTE) for i in "C04 C05 C06 C07 C10 C11 C12 C13 C14 C15 C28".split()
}
exec(open('/verif/tools/claims.py').read()) if __import__('os').path.exists('/verif/tools/claims.py') else None
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": ("env VERIF_TIER=thorough " if i in ("C02", "C03") else "") + f"./check.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": globals().get("REASONS", {}).get(i, "check under construction")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
