#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(D, "tools/claimed")).read().split()
NA = {
}
NOTE = "Every obligation generated from the SSA form of /repo's current source is discharged for all inputs and iterations by an SMT solver (z3, cvc5), function by function against the contracts in /verif/contracts; assumes the library models and extern contracts listed in the evidence, mathematical integers/reals, and partial correctness. "
NOTES = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
    technique="contract-based deductive verification of the Go source (verification conditions from go/ssa, discharged by z3/cvc5)",
    level="proof", level_note=NOTE + NOTES.get(i, "")) for i in ids if i in CLAIMED],
  not_applicable=[dict(property=i, reason=NA.get(i, "Not claimed yet: contracts for it are being written.")) for i in ids if i not in CLAIMED],
  notes="No hooks in /repo. Fixes to /repo are listed in known-findings.txt.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
