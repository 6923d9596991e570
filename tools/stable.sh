#!/bin/bash
# tools/stable.sh : stable tests on a scratch copy of /repo's working tree
W=/tmp/stable.$$; mkdir -p $W; cp -a /repo $W/repo
sed "s#/repo#$W/repo#g; s#/opt/vp/reports#$W/reports#g" /opt/vp/test.sh > $W/test.sh
bash $W/test.sh $W/out.json > $W/test.log 2>&1
python3 - $W/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(sys.argv[1]))
m = [x for x in b if x not in o['passed']]
print("stable tests:", "all pass" if not m else "MISSING " + " ".join(m))
P
rm -rf "$W"
