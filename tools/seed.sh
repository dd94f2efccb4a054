#!/bin/bash
# seed.sh <id>...: in a scratch copy of /repo, apply seeded/<id>/patch.diff, build,
# run the stable tests, run the demo with and without, and (unless NOCHECK) run
# the property's check against the copy.
set -u
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$HERE/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seed_XXXXXX)
  cp -a ${VERIF_REPO:-/repo} $W/repo
  git -C $W/repo checkout -q -- . 
  D=$(mktemp -d /tmp/demo_XXXXXX); cp -r $S/* $D/; rm -f $D/patch.diff $D/meta.json
  # demo scripts compile against the current directory
  (cd $W/repo && bash $D/demo.sh >$W/clean.log 2>&1); clean=$?
  git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W" "$D"; continue; }
  (cd $W/repo && bash $D/demo.sh >$W/bad.log 2>&1); bad=$?
  tests=-
  if [ -z "${NOTEST:-}" ]; then tests=$(bash $HERE/tools/upstream_tests.sh $W/repo 2>&1 | grep -v '^rc=0\|NOBUILD opcode' | tr '\n' ' '); fi
  if [ -z "${NOCHECK:-}" ]; then
    VERIF_REPO=$W/repo python3 $HERE/check.py $prop --tier quick >$W/check.log 2>&1; chk=$?
    v=$(grep -m1 '^violated' $W/check.log)
  else chk=-; v=; fi
  echo "$id [$prop] demo clean=$clean patched=$bad check=$chk $v tests: ${tests:-ok}"
  [ $clean -ne 0 ] && tail -5 $W/clean.log
  [ "$chk" != 1 ] && [ "$chk" != "-" ] && tail -3 $W/check.log
  rm -rf "$W" "$D"
done
