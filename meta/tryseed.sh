#!/bin/bash
# tryseed.sh ID: confirm a planted change in a scratch copy of /repo (builds, stable tests, demonstration), then run its check on it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedtry.$ID
rm -rf "/tmp/seedtry.$ID"; mkdir -p $W
cp -a /repo $W/repo; cd $W/repo
git checkout -q -- . 
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
# Demonstrations refer to the working directory only.
(cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1); r0=$?
git apply --check $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
git apply $S/patch.diff
(cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1); r1=$?
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
if [ -z "$NOTEST" ]; then
  # The official build and tests run on /repo itself.
  git -C /repo apply $S/patch.diff
  bash /opt/vp/test.sh $W/out.json >$W/t 2>&1
  git -C /repo checkout -q -- .
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
bs=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
print('missing',len(set(bs)-set(o['passed'])))" 2>&1 | tail -1)
fi
(cd /verif && OBAKE_REPO=$W/repo timeout 900 ./check $P >$W/c 2>&1); rc=$?
echo "$ID: demo clean=$r0 (want 0) patched=$r1 (want nonzero); tests: $t; check $P exit=$rc (want 1)"
[ "$r0" = 0 ] || tail -5 $W/d0
grep -v '^    ' $W/c | head -${LINES_:-3} | cut -c1-250
rm -rf "/tmp/seedtry.$ID"
