#!/usr/bin/env python3
"""Write MANIFEST.json from the plan and the list of properties."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid not in PLAN:
        na.append({"property": pid, "reason": "the contracts of this property are not finished yet"})
        continue
    plan = PLAN[pid]
    tech = ("contract-based deductive verification of the real functions: pre- and postconditions over unconstrained "
            "symbolic inputs, discharged by Kani (CBMC/CaDiCaL) with all loops completely unrolled")
    if plan.get("verus"):
        tech += ("; loop kernels extracted mechanically from the expanded source and proved for all inputs by Verus (Z3) "
                 "with loop invariants, callers proved against the kernels' contracts")
    checks.append({
        "property": pid,
        "quick_cmd": "python3 tools/check.py %s quick" % pid,
        "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": tech,
        "level": "proof",
        "level_note": plan.get("note", "all inputs of the widths and configurations listed in tools/plan.py; the quick tier "
                               "proves fewer widths than the thorough tier. In addition the contracts are executed on drawn "
                               "inputs with the assembly build, which is bounded and not counted as proved."),
    })
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "none", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all contracts are in harness/ (a crate with a path dependency on /repo). Commits of /repo "
             "starting with fix: repair defects that the contracts found, listed in known-findings.txt.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
