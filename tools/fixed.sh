#!/bin/bash
# tools/fixed.sh Cxx [n]: records /repo's last n (default 1) commits as fixed
git -C /repo log -${2:-1} --reverse --format='%h %s' | grep ' fix: ' | python3 -c '
import json,sys
p="/verif/known_findings.json"
d=json.load(open(p))
for l in sys.stdin:
    c, t = l.strip().split(" fix: ", 1)
    if not any(" %s " % c in f for f in d["fixed"]):
        d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], c, t))
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
' $1
