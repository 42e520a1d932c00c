#!/usr/bin/env python3
"""Records the shape of the functions the contracts were written for (contracts/baseline.json). Run by hand
after a change to the contracts; no check runs it."""
import hashlib, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
B = f"{HERE}/contracts/baseline.json"
if os.path.exists(B):
    os.remove(B)
d = tempfile.mkdtemp()
subprocess.run([f"{HERE}/extract/target/release/extract", "/repo/src", f"{HERE}/contracts", f"{d}/g.rs", f"{d}/g.json"], check=True)
g = json.load(open(f"{d}/g.json"))
out = {"fns": {f["fn"]: {k: f[k] for k in ("names", "loops", "closures", "calls", "sig", "returns", "loop_vars", "decls", "placed")} for f in g["fns"]},
       "uncontracted": sorted(f["fn"].split("::")[-1] for f in g["fns"] if not f["contract"])}
out["fields"] = g["fields"]
json.dump(out, open(B, "w"), indent=0)
sys.argv = ["check.py", "C01"]
import check
check.BASE = {}
w, n, t = check.literals()
out["words"], out["numbers"], out["texts"] = sorted(w), sorted(n), sorted(t)
out["sources"] = {m: hashlib.sha256(open(f"/repo/src/{m}.rs", "rb").read()).hexdigest() for m in check.MODULES}
json.dump(out, open(B, "w"), indent=0)
print(out["uncontracted"], len(out["fns"]), len(w), len(n), g["unused_contracts"])
