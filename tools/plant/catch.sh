#!/bin/bash
# catch.sh ID [props...] : run checks on a patched copy
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
wt=/tmp/sb/c_$id; rm -rf $wt; cp -a /repo $wt; git -C $wt apply $d/patch.diff || exit 9
for p in $props; do
  s=$(date +%s)
  VERIF_REPO=$wt VERIF_SEED=${SEED:-1} timeout 1200 /verif/check $p quick > /tmp/sb/out_${id}_$p 2>&1; r=$?
  echo "$id $p rc=$r $(($(date +%s)-s))s $(grep -A1 VIOLATION /tmp/sb/out_${id}_$p | tail -1 | cut -c1-160)"
  [ $r = 2 ] && tail -5 /tmp/sb/out_${id}_$p
done
rm -rf $wt
