#!/bin/bash
# usage: try.sh ID [PROPERTY ...] - runs the checks of ID's property (or those given) against a scratch copy of /repo with the planted bug (development aid)
id=$1; shift
T=/tmp/try.$id; rm -rf "$T"; mkdir -p "$T/v"
git clone -q /repo "$T/repo" && git -C "$T/repo" apply /verif/seeded/$id/patch.diff || exit 2
cp -a /verif/sim /verif/wasmsim /verif/check.sh /verif/known-findings.json "$T/v/"
sed -i "s#=> /repo#=> $T/repo#" "$T/v/sim/go.mod"
props=$*; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for p in $props; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick "$T/v/check.sh" $p > "$T/out.$p" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E '^VIOLATION' "$T/out.$p" | cut -c1-200) $(grep -A1 -m1 -E '^VIOLATION' "$T/out.$p" | tail -1 | cut -c1-200)"
done
[ -n "$KEEP" ] || rm -rf "$T"
