#!/bin/bash
# try_seeds.sh [seed ids...]: run the check of each seeded change's property against it (scratch copies, see with_patch.sh)
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
one() {
  s=$1; t0=$(date +%s)
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  out=$(tools/with_patch.sh seeded/$s/patch.diff ./check $p quick 2>&1); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  [ $rc -eq 1 ] && [ $v -gt 0 ] && r=CAUGHT || r="MISSED(rc=$rc)"
  echo "$r $s $p $(( $(date +%s) - t0 ))s $(echo "$out" | grep 'clause' | head -1 | cut -c1-160)"
}
for s in "${ids[@]}"; do one $s; done
