#!/bin/bash
# seedrun.sh [ids...]: run each seeded bug's own check (quick) against it, in a scratch copy of /repo
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seedrun-XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || echo "APPLY FAILED $id"
  s=$(date +%s)
  GEMLOG_REPO="$d/repo" MC_EVIDENCE="$d" timeout 900 ./run.sh $prop > "$d/log" 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c '^VIOLATION' "$d/log") violations $(( $(date +%s)-s ))s"
  [ "$rc" = 1 ] || tail -3 "$d/log"
  rm -rf "$d"
done
