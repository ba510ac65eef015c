#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = {}
exec(open(os.path.join(here, "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}", evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification of the Go source (gv: go/ssa + contracts, discharged by cvc5 and z3)", level="proof", level_note=claims[i]))
    else:
        na.append(dict(property=i, reason=reasons.get(i, "not claimed yet: the contracts of these functions are not written")))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the checks read the source of /repo and the replays use go test -overlay", source_commits=[]), checks=checks, not_applicable=na,
         notes="One verifier (gv/) for all properties; contracts in contracts/*.gv; replays against the real code in harness/. See DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
