#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os
from jobs import JOBS, BOUNDS, NOT_APPLICABLE

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in JOBS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code's LLVM IR with Z3 (bounded, all inputs within bounds), against a reference model",
            "level": "model_checking",
            "level_note": "Bounded: every input within the bounds is decided by the solver, nothing is claimed outside them. Bounds: "
            + BOUNDS[i] + " Trusted: rustc/LLVM up to the IR, the executor rsym (checked each run by replaying models natively), Z3 (queries sampled and rechecked with cvc5 and another Z3), the reference model.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are needed: everything is driven through public items", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One engine (rsym) and one harness crate; check.py rebuilds the encoding from /repo on every run. See DESIGN.md; repaired defects are in known_findings.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
