#!/bin/bash
# Run each planted bug's own check against a patched copy of /repo (never /repo itself).
# usage: run_seeds.sh [ID...]; prints one line per bug
cd /verif/seeded || exit 2
for id in ${@:-$(ls)}; do
  d=$(mktemp -d /tmp/seedrun.XXXXXX); chmod 755 "$d"; cp -a /repo "$d/repo"
  if git -C "$d/repo" apply "/verif/seeded/$id/patch.diff"; then
    p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "/verif/seeded/$id/meta.json")
    s=$(date +%s)
    out=$(cd /verif && VERIF_REPO="$d/repo" VERIF_EVIDENCE=/dev/null timeout 900 python3-vt run_check.py "$p" 2>&1); rc=$?
    echo "$id $p exit=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -E '^(VIOLATION|UNDEC)' | cut -c1-120)"
  else echo "$id APPLY-FAILED"; fi
  rm -rf "$d"
done
