#!/bin/bash
# seedtest.sh ID…: for each planted bug: demo passes on /repo, patch applies & builds, stable tests pass, demo fails, check of its property catches it.
# NOCHECK=1 skips the check; NOTEST=1 skips the stable tests; PROPS="C01 C02" runs these checks instead.
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash $d/demo.sh >/tmp/demo.ok.log 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  tests="-"
  if [ -z "$NOTEST" ]; then
    for i in 1 2 3; do tests=$(bash /tmp/bt.sh | tail -1); [[ $tests == *"missing []"* ]] && break; done
  fi
  bash $d/demo.sh >/tmp/demo.bad.log 2>&1; d1=$?
  chk="-"
  if [ -z "$NOCHECK" ]; then
    chk=""
    for p in ${PROPS:-$prop}; do
      t0=$(date +%s)
      out=$(cd /verif && ./check.sh $p 2>&1); rc=$?
      chk="$chk $p:rc=$rc($(( $(date +%s)-t0 ))s) $(echo "$out" | grep -m1 VIOLATION | cut -c1-100)"
    done
  fi
  git -C /repo checkout -q -- .
  echo "$id [$prop] demo0=$d0 demo1=$d1 tests: ${tests:0:120} | check:$chk"
done
