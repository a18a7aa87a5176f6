#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(here + "/../properties.jsonl")]
table = "".join(open(here + "/../engine/" + f).read() for f in sorted(os.listdir(here + "/../engine")) if f.startswith("table"))
have = set(re.findall(r'prop\("([A-Z]\d\d)"', table))
NA = {}
NOTE = ("symbolic execution of the compiled repository code (go/ssa), inputs, clock and schedule symbolic, "
        "every assertion discharged by z3 within the bounds listed in the evidence; counterexamples are replayed natively")
checks, na = [], []
for p in props:
    if p in have:
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
            technique="solver-based symbolic execution of the real code (SMT, partial-order-reduced schedules)",
            level="model_checking", level_note=NOTE, evidence_file="evidence/%s.json" % p))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check yet")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: harnesses are added to /repo's packages through an overlay at check time", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="tools/mkmanifest.py writes this file; genuine defects that were repaired are listed in KNOWN_FINDINGS.jsonl")
json.dump(m, open(here + "/../MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
