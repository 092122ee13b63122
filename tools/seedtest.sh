#!/bin/bash
# seedtest.sh DIR...: in a scratch copy of /repo, checks planted changes: applies, builds, stable tests pass, demo 0 without / nonzero with; then runs the property's check on it (CHECK=1)
S=/tmp/seedscratch
mkdir -p $S
if [ ! -d $S/repo ] || [ "$(git -C $S/repo rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
  rm -rf /tmp/seedscratch/repo; cp -a /repo $S/repo
  git -C $S/repo checkout -q -- .
fi
rm -rf /tmp/seedscratch/vp; cp -a /opt/vp $S/vp
sed -i "s#/repo#$S/repo#g; s#/opt/vp#$S/vp#g" $S/vp/build.sh $S/vp/test.sh $S/vp/harness/*.py $S/vp/results.py
cd $S/repo
git checkout -q -- .
bash $S/vp/build.sh >$S/build.log 2>&1
for d in "$@"; do
  d=$(realpath $d); id=$(basename $d)
  D=$S/demo; rm -rf /tmp/seedscratch/demo; mkdir -p $D; cp -a $d/. $D/; rm -f $D/patch.diff $D/meta.json
  sed -i "s#/repo#$S/repo#g" $D/demo.sh
  git checkout -q -- .; bash $S/vp/build.sh >$S/build.log 2>&1
  timeout 300 bash $D/demo.sh >$S/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $S/vp/test.sh $S/out.json >$S/test.log 2>&1; rb=$?
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$S/out.json'))
print(len(set(b)-set(o['passed'])))
P
)
  timeout 300 bash $D/demo.sh >$S/demo1.log 2>&1; r1=$?
  echo "$id: demo clean=$r0 patched=$r1 stable tests lost=$miss"
  [ "$miss" != 0 ] && python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$S/out.json'))
print(sorted(set(b)-set(o['passed']))[:5])"
  if [ -n "$CHECK" ]; then
    p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
    (cd /verif; VERIF_REPO=$S/repo VERIF_BUILD=$S/vbuild VERIF_EVID=$S/evid VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 lib/check.py $p > $S/check-$id.log 2>&1; echo "   check $p exit $?"; grep -A1 VIOLATION $S/check-$id.log | head -4)
  fi
  git checkout -q -- .
done
