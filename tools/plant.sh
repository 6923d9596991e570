#!/bin/bash
# tools/plant.sh ID [notest] : validate planted bug seeded/ID in a scratch copy of
# /repo (applies, builds, passes the stable tests, demo distinguishes) and run the
# check of its property against the copy.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant/$ID
rm -rf "/tmp/plant/$ID"; mkdir -p "$W/out"; cp -a /repo "$W/repo"
for f in build test; do sed "s#/repo#$W/repo#g; s#/opt/vp/reports#$W/reports#g" /opt/vp/$f.sh > $W/$f.sh; done
sed "s#ahkab.__file__ == '[^']*'#True#" -i $W/build.sh
mkdir -p $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
export DEMO=$W/demo/demo.sh
demo() { (cd $W/repo && PATH=/opt/venv/bin:$PATH timeout 300 bash $DEMO > $W/demo.log 2>&1); }
demo; R=$?; [ $R -eq 0 ] || { echo "$ID: demo fails on the unchanged tree ($R)"; tail -5 $W/demo.log; exit 1; }
git -C $W/repo apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
demo; R=$?; [ $R -ne 0 ] || { echo "$ID: demo passes with the patch"; exit 1; }
if [ "$2" != notest ]; then
  bash $W/build.sh > $W/build.log 2>&1 || { echo "$ID: build fails"; tail -5 $W/build.log; exit 1; }
  bash $W/test.sh $W/out.json > $W/test.log 2>&1
  M=$(python3 - $W/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(sys.argv[1]))
print(" ".join(x for x in b if x not in o['passed']))
P
)
  [ -z "$M" ] || { echo "$ID: stable tests fail: $M"; exit 1; }
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
VERIF_REPO=$W/repo timeout 1200 ./check.sh $P --no-evidence > $W/check.log 2>&1
echo "$ID ($P): valid; check exit $?: $(grep -E 'VIOLATION|held' $W/check.log | head -1)"
rm -rf "/tmp/plant/$ID/repo" "/tmp/plant/$ID/reports"
