#!/usr/bin/env python3
"""counts.py: the table of DESIGN.md's section 4, from the evidence files of the last runs"""
import json, glob, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| property | functions under contract | obligations | by the simplifier | by solvers | solver time | wall |\n|---|---|---|---|---|---|---|")
for f in sorted(glob.glob(D + "/evidence/C*.json")):
    d = json.load(open(f)); c = d["coverage"]
    simp = c["discharged_by"].get("simplifier", 0) + c["discharged_by"].get("type checker", 0)
    bad = "" if c["discharged"] == c["obligations"] else " (%d open)" % (c["obligations"] - c["discharged"])
    print("| %s | %d | %d%s | %d | %d | %.1f s | %.0f s |" % (d["property"], len(c["functions_under_contract"]), c["obligations"], bad, simp, c["discharged"] - simp, c["solver_ms"] / 1000, d["wall_s"]))
