#!/bin/bash
# reverts.sh [HASH…]: for every fix recorded in known_findings.txt, undo it in a scratch copy mounted over /repo and run
# the quick check of its property (or of $PROP), which has to report the defect again. One line per fix: CAUGHT, MISSED or CONFLICT.
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/revert-$$
mkdir -p "$S"; cp -a "${SRC:-/repo}/." "$S/"; git -C "$S" checkout -q -- .
sed -n 's/^fixed: property=\([A-Z0-9]*\) \([0-9a-f]*\).*/\2 \1/p' "$V/known_findings.txt" | while read H P; do
  [ $# -gt 0 ] && [[ " $* " != *" $H "* ]] && continue
  git -C "$S" reset -q --hard
  if ! git -C "$S" -c user.name=x -c user.email=x revert -n ${XO:+-X theirs} "$H" >/dev/null 2>&1; then
    echo "$H $P CONFLICT"; git -C "$S" revert --abort >/dev/null 2>&1; git -C "$S" reset -q --hard; continue
  fi
  unshare -Urm bash -c "mount --bind '$S' /repo && bash /opt/vp/build.sh >/dev/null 2>&1; cd '$V' && VERIF_SEED=1 VERIF_TIER=${TIER:-quick} bash check.sh ${PROP:-$P}" >"$S.log" 2>&1 </dev/null; R=$?
  [ $R = 1 ] && echo "$H $P CAUGHT $(grep -A1 VIOLATION "$S.log" | grep key= | head -2 | cut -c1-90 | tr '\n' ';')" || echo "$H $P MISSED exit=$R"
done
rm -rf "$S" "$S.log"
