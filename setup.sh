#!/bin/sh
# Nothing to build: the checks compile /repo's sources themselves. Verifies the interpreter.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; assert sys.version_info >= (3, 12), sys.version; import dst.run'
