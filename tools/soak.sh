#!/bin/bash
# soak.sh DIR SECONDS WORKERS SEED0 ID...: from a copy of the committed work, search many seeds for rare (false) alarms
D=$1; S=$2; W=$3; SEED=$4; shift 4
git -C "$(dirname "$0")/.." archive --prefix=v/ HEAD | (mkdir -p "$D" && tar x -C "$D")
cp -a /repo/streamtasks "$D/repo-streamtasks.tmp" && mkdir -p "$D/repo" && rm -rf "$D/repo/streamtasks" && mv "$D/repo-streamtasks.tmp" "$D/repo/streamtasks"
export DST_REPO="$D/repo" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
for id in "$@"; do
  echo "== $id seed=$SEED"
  nice -n 15 /opt/venv/bin/python "$D/v/dst/main.py" --property "$id" --tier thorough --seed "$SEED" --seconds "$S" --workers "$W" 2>&1 | grep -v "^runs=" | cut -c1-600
done
