#!/usr/bin/env python3
# regenerates MANIFEST.json from the table below
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "contracts on the real functions, verification conditions from go/ssa discharged by govc (ring normal forms + z3), all inputs"
BOUND = "contract checked on the real functions by bounded replay (stand-in, not proved)"
proved = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    lv, note = CLAIMS[p]
    checks.append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
        evidence_file=f"evidence/{p}.json", technique=PROOF if lv == "proof" else BOUND, level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: contracts live in /verif/govc and are checked against the SSA of /repo's current source on every run."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
