#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS

with open("properties.jsonl", "w") as o:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"python3 run.py {p['id']} quick",
            thorough_cmd=f"python3 run.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique="symbolic execution of the compiled LLVM IR of /repo with z3 (path-wise bounded model checking), counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value within these bounds: " + CHECKS[p["id"]]["bounds"]
            + ". Trusts the IR semantics of the engine (validated each run by native replay of sampled paths), z3, and the harness oracle. Nothing is claimed outside the bounds.",
        )
        for p in PROPS
        if p["id"] in CHECKS
    ],
    not_applicable=NOT_APPLICABLE + [dict(property=p["id"], reason="check not built") for p in PROPS if p["id"] not in CHECKS and p["id"] not in na],
    notes="One engine (engine/, Rust, symbolic execution of LLVM IR with z3), one harness crate (harness/), one runner (run.py). No hooks in /repo. See DESIGN.md; known findings and repairs in known-findings.txt.",
)
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
