#!/bin/bash
# seedcheck.sh ID [nosuite]: confirm a planted bug in a scratch copy mounted over /repo in a private mount namespace:
# patch applies, builds, stable tests pass, demo passes on the clean tree and fails on the patched one; then which checks catch it.
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/seedwt-$ID-$$
mkdir -p "$S"; cp -a /repo/. "$S/"; mkdir "$S.demo"; cp "$V/seeded/$ID/"* "$S.demo/"; rm -f "$S.demo/patch.diff" "$S.demo/meta.json"
git -C "$S" checkout -q -- .
in_ns() { unshare -Urm bash -c "mount --bind '$S' /repo && cd /repo && $1"; }
in_ns "bash /opt/vp/build.sh" >/dev/null 2>&1 || echo "$ID: clean build FAILED"
in_ns "timeout 300 bash $S.demo/demo.sh" >$S.demo/clean.log 2>&1; C=$?
git -C "$S" apply "$V/seeded/$ID/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$S" "$S.demo"; exit 1; }
in_ns "bash /opt/vp/build.sh" >$S.demo/build.log 2>&1 || { echo "$ID: patched build FAILED"; tail -5 $S.demo/build.log; }
in_ns "timeout 300 bash $S.demo/demo.sh" >$S.demo/bad.log 2>&1; B=$?
echo "$ID: demo clean=$C patched=$B $( [ $C = 0 ] && [ $B != 0 ] && echo OK || { echo BAD; cat $S.demo/clean.log $S.demo/bad.log | tail -n 12; })"
if [ "$2" != nosuite ]; then
  in_ns "bash /opt/vp/test.sh $S.demo/t.json" >/dev/null 2>&1
  python3 -c "
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S.demo/t.json'))
bad=sorted(set(b['stable'])-set(t['passed'])); print('$ID: suite', 'OK' if not bad else 'BROKEN %s'%bad)"
fi
P=${3:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
for p in $P; do
  in_ns "cd '$V' && VERIF_SEED=1 VERIF_TIER=quick bash check.sh $p" >$S.demo/check.log 2>&1; R=$?
  echo "$ID: check $p exit=$R $(grep -A1 VIOLATION $S.demo/check.log | grep key= | head -3 | cut -c1-150 | tr '\n' ';')"
done
rm -rf "$S" "$S.demo"
