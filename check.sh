#!/bin/bash
# check.sh ID [args]: run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
if [ "$1" = "--setup" ]; then
  exec /opt/venv/bin/python dst/main.py --setup
fi
exec /opt/venv/bin/python dst/main.py --property "$@"
