#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real C code (CBMC contracts; cvc5 / z3 / CaDiCaL back ends)"
P, NA = [], []


def prop(i, title, st, over, q, why, files, mech, note, level="proof", na=None):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech], hook_needed=None)))
    if na:
        NA.append(dict(property=i, reason=na))
    else:
        CH.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                       evidence_file=f"evidence/{i}.json", technique=TECH, level=level, level_note=note))


CH = []
B = "src/backends/interflop-backend-"
STD = "src/interflop-stdlib/"
exec(open(V + "/tools/props.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=CH, not_applicable=NA), open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
