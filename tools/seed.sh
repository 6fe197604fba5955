#!/bin/bash
# seed.sh start | try NAME [TIER]: plant a bug in a scratch copy of /repo, confirm it, and run its check against the copy
#   start      fresh copy in /tmp/sd; edit it by hand
#   make NAME  write the diff of /tmp/sd to seeded/NAME/patch.diff
#   try NAME   apply seeded/NAME/patch.diff to a fresh copy: tests, demo (both trees), check
set -u
V=$(cd "$(dirname "$0")/.." && pwd); D=${SD:-/tmp/sd}
fresh() { mkdir -p $D; rsync -a --delete /repo/ $D/ 2>/dev/null || { find $D -mindepth 1 -delete; cp -a /repo/. $D/; }; git -C $D checkout -q -- .; }
case "$1" in
  start) fresh ;;
  make) mkdir -p $V/seeded/$2; git -C $D diff > $V/seeded/$2/patch.diff; cat $V/seeded/$2/patch.diff ;;
  try|check)
    fresh; S=$V/seeded/$2
    git -C $D apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
    if [ "$1" = try ]; then
      (cd $D; export PYTHONPATH=$D TMPDIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 FULL=1 DEBUG_SER=1
       /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --ignore=tests/media/test_containers.py tests 2>&1 | tail -4)
      (cd $D; timeout 300 bash $S/demo.sh >/tmp/sd.out 2>&1; echo "demo with patch: rc=$?"; tail -3 /tmp/sd.out)
      (cd /repo; timeout 300 bash $S/demo.sh >/tmp/sd.out 2>&1; echo "demo clean: rc=$?"; tail -3 /tmp/sd.out)
    fi
    P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    cd $V; DST_REPO=$D VERIF_SEED=1 bash check.sh $P --tier ${3:-quick} 2>&1 | tail -6 | cut -c1-400; echo "check rc=${PIPESTATUS[0]}" ;;
esac
