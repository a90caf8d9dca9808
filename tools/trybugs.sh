#!/bin/bash
# Applies each planted bug (or the ones named) to /repo, runs every claimed check (ALL=1) or its
# own property's check, and undoes it. Prints which check reports it.
cd /verif || exit 2
chk=${CHK:-/tmp/chk}
. /opt/vp/env.sh; export GOSUMDB=off
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  list=$p; [ -n "$ALL" ] && list=$($chk list | grep -o '"id":"[A-Z0-9]*"\|^[A-Z][0-9][0-9]' | tr -d '":id' )
  out=""
  for q in $list; do
    o=$(timeout 900 $chk check $q 2>&1); rc=$?
    [ $rc -ne 0 ] && out="$out $q($rc $(grep -c '^VIOLATION' <<<"$o"))"
  done
  git -C /repo checkout -q -- .
  echo "$id [$p]:${out:- MISSED}"
done
