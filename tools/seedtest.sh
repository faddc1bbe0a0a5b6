#!/bin/bash
# usage: tools/seedtest.sh <seed id>...   Confirms each planted bug in a scratch copy of /repo: patch applies, stable tests still pass,
# demo passes without / fails with it, and the property's quick check reports it.  (development tool; no check uses it)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$S/repo"; cp -a "$V/seeded/$id" "$S/bug"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  cd "$S/repo"; export PYTHONPATH=$S/repo/src
  rm -f "$S/bug/patch.diff" "$S/bug/meta.json"
  (PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$S/bug/demo.sh" >"$S/d0" 2>&1); d0=$?
  git apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$S"; continue; }
  (PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$S/bug/demo.sh" >"$S/d1" 2>&1); d1=$?
  st="skipped"
  if [ -z "$NOTESTS" ]; then
    /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=300 --tb=line --continue-on-collection-errors --basetemp="$S/tmp" -o junit_family=xunit2 --junitxml="$S/junit.xml" >/dev/null 2>&1
    python3 /opt/vp/results.py "$S/o.json" "junit:$S/junit.xml" >/dev/null 2>&1
    st=$(python3 "$V/tools/stable.py" "$S/o.json" 2>&1 | tail -1)
  fi
  unset PYTHONPATH
  (cd "$V" && VERIF_REPO=$S/repo timeout 900 ./check "$p" ${TIER:-quick} >"$S/c" 2>&1); c=$?
  echo "$id [$p] demo clean=$d0 patched=$d1 | tests: $st | check exit=$c $(grep -m1 VIOLATION "$S/c")"
  [ "$d0" != 0 ] && tail -5 "$S/d0"
  [ "$c" != 1 ] && tail -5 "$S/c"
  rm -rf "$S"
done
