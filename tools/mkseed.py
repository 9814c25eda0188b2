#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS <<< 'old\n=====\nnew' : record a planted change (patch.diff, meta.json)."""
import json, os, subprocess, sys
i, prop, f, needs, brk = sys.argv[1:6]
p = "/repo/" + f
s = open(p).read()
t = s
for blk in sys.stdin.read().split("\n#####\n"):
    old, new = blk.rstrip("\n").split("\n=====\n") if "\n=====\n" in blk else (blk.rstrip("\n").replace("\n=====", ""), "")
    assert t.count(old) == 1, (t.count(old), old)
    t = t.replace(old, new)
open(p, "w").write(t)
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump(dict(property=prop, needs=needs, what_it_breaks=brk), open(d + "/meta.json", "w"), indent=1)
print(open(d + "/patch.diff").read())
