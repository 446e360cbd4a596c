#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has harnesses."""
import json, os, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(f).read() for f in sorted(glob.glob(root + "/harness/h/c*.go")))
NOT = {}
checks, na = [], []
for p in props:
    i = p["id"]
    hs = re.findall(r"^func (%s_\w+)\(\)" % i, src, re.M)
    if not hs:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet")))
        continue
    checks.append(dict(property=i,
        quick_cmd="bash check.sh %s quick" % i,
        thorough_cmd="bash check.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the Go SSA of /repo, assertions decided by an SMT solver (z3)",
        level="model_checking",
        level_note="Bounded: every path of %d harnesses (%s) is explored symbolically over /repo's current source; every assertion on every path is decided by z3 for all values within the bounds listed in the evidence file. Counterexamples are replayed natively before they count." % (len(hs), ", ".join(h.split("_", 1)[1] for h in hs))))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
