#!/usr/bin/env python3
"""writes MANIFEST.json from the props modules present"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C31": "a bound on the global error quantifies over all well-posed problems and their stability constants; no function contract expresses it",
 "C32": "long-time near-conservation is an asymptotic whole-history statement (backward error analysis); contracts over one step cannot express it. Its per-step basis (symplecticity) is C19/C20.",
}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = H + "/props/%s.py" % i
    if os.path.exists(f):
        t = open(f).read()
        m = re.search(r"^NOTE\s*=\s*\(?\"\"\"(.*?)\"\"\"", t, re.S | re.M)
        lv = re.search(r'^LEVEL\s*=\s*"(\w+)"', t, re.M)
        te = re.search(r'^TECHNIQUE\s*=\s*"(.*)"', t, re.M)
        checks.append(dict(property=i, quick_cmd="python3-vt /verif/check.py %s quick" % i,
                           thorough_cmd="python3-vt /verif/check.py %s thorough" % i,
                           technique=te.group(1) if te else "contract-based deductive verification of the real headers (odv: function contracts, loop invariants; normal-form prover, z3, cvc5)",
                           level=lv.group(1) if lv else "proof",
                           level_note=" ".join((m.group(1) if m else "see DESIGN.md").split())))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
