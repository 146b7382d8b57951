#!/bin/sh
# check.sh <property>: runs the check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m dst.run --property "$@"
