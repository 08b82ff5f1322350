#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C90": "The optimum of a non-convex real-valued likelihood has no finite state/transition description TLC could evaluate; deciding it needs numerical optimisation theory, not a model of behaviour.",
    "C91": "Accuracy of real-valued metrics (diamond norms, fidelities, error bars) is numerical analysis; TLA+ integers cannot state it beyond trivial cases.",
}
NOTE = ("TLC checks the specification's own invariants exhaustively within the bounds of its cfg, and validates every recorded execution of the real "
        "code (replayed TLC-enumerated scripts and seeded random histories) step by step against the specification; executions not explored are not "
        "covered. Trusts TLC, the projection code of the harness and NumPy arithmetic on the sizes used.")
props = [json.loads(l) for l in open(os.path.join(HOME, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HOME, "harness", i.lower() + ".py")):
        src = open(os.path.join(HOME, "harness", i.lower() + ".py")).read()
        checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification model-checked with TLC, bound to the code by script replay and trace validation in TLC",
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been finished for this property yet")))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: everything is observed through the public API. Defects found are repaired in /repo by commits starting 'fix:' (known_findings.txt)."),
          open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
