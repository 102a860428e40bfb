#!/bin/bash
# detect.sh [id...] : each planted bug in a scratch copy, against the check of its property (ALL=1: against every check)
V=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/detect.XXXXXX); trap 'rm -rf "$w"' EXIT
ids=("$@"); [ $# -eq 0 ] && ids=($(ls $V/seeded))
for i in "${ids[@]}"; do
  rm -rf "$w/r"; git clone -q /repo "$w/r" && git -C "$w/r" apply "$V/seeded/$i/patch.diff" || { echo "$i DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$i/meta.json")
  ps=$p; [ -n "$ALL" ] && ps=$(cd $V && python3 -c "from props import PROPS;print(*PROPS)")
  hit=()
  for q in $ps; do
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$w/r timeout 900 python3 $V/run.py $q > "$w/out" 2>&1; r=$?
    if grep -q "^VIOLATION property=$q " "$w/out"; then hit+=("$q"); elif [ $r -ne 0 ]; then hit+=("$q:exit$r"); fi
    [ -z "$ALL" ] && msg="$(( $(date +%s) - s ))s $(grep -v VIOLATION "$w/out" | tail -1 | cut -c1-150)"
  done
  case " ${hit[*]} " in *" $p "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$i $p $v ${hit[*]} $msg"
done
