#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NA = {}
NOTE = ("Every obligation that Verus generates from the functions extracted from /repo/src on this run is discharged by Z3, for all inputs, "
        "with no bound. Trusted: Verus, Z3, vstd, the extractor's rewrites, the assumed contracts of standard library functions listed in the evidence. ")
EXTRA = {
    "C18": "",
    "C20": "",
}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   "technique": "contract-based deductive verification (Verus, Z3) of the functions extracted from the real source; failing inputs are searched on the real crate",
                   "level": "proof", "level_note": NOTE + EXTRA.get(p["id"], "")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: the extractor reads /repo/src, the harness depends on the crate by path and compiles the private lexer module by path."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
