#!/bin/bash
# runseeds.sh SECS [SEED...]: runs each planted bug's check on a scratch copy of /repo with the bug
V=/verif; secs=$1; shift; [ $# = 0 ] && set -- $(ls $V/seeded)
for s in "$@"; do
  R=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo "$R/repo"
  (cd "$R/repo" && git apply "$V/seeded/$s/patch.diff") || { echo "$s: patch fails"; rm -rf "$R"; continue; }
  for p in ${PROPS:-$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")}; do
    mkdir "$R/v"; a=$(date +%s); OV="$R/v" REPO="$R/repo" VERIF_OUT="$R/v" bash $V/check.sh $p $secs > "$R/log" 2>&1; rc=$?; b=$(date +%s)
    echo "$s $p rc=$rc $((b-a))s $(grep -h -m1 VIOLATION "$R/log") $(grep -h -m1 -A1 VIOLATION "$R/log" | tail -1 | cut -c1-160)"
    [ $rc -gt 1 ] && tail -5 "$R/log"
    rm -rf "$R/v"
  done
  rm -rf "$R"
done
