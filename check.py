#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import suite
from runner import check
a = sys.argv[1:]
tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
if "--setup" in a:
    import shutil
    missing = [t for t in ("gcc", "clang", "goto-cc", "goto-instrument", "cbmc", "cvc5", "z3-new") if not shutil.which(t)]
    print("missing: %s" % missing if missing else "tools present")
    sys.exit(1 if missing else 0)
prop = [x for x in a if not x.startswith("--")][0]
os.environ["VERIF_TIER"] = tier
kw = dict(suite.P[prop])
flt = [x[7:] for x in a if x.startswith("--only=")]
if flt:
    kw["jobs"] = [j for j in kw["jobs"] if flt[0] in j.name]
sys.exit(check(prop, tier=tier, **kw))
