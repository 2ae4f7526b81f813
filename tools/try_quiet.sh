#!/bin/bash
# try_quiet.sh patch [properties...]: run the checks (all by default) against a behaviour-preserving change
p=$(realpath "$1"); shift
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ $# -gt 0 ] || ids=($(seq -f 'C%02g' 1 25))
for c in "${ids[@]}"; do
  out=$(tools/with_patch.sh $p ./check $c quick 2>&1); rc=$?
  [ $rc -eq 0 ] && echo "quiet $c" || { echo "ALARM(rc=$rc) $c"; echo "$out" | tail -4 | cut -c1-1200; }
done
