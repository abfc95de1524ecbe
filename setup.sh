#!/bin/sh
# Nothing to build in advance: checks that interpreter, compiler and code under test are there.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
g++ --version > /dev/null || exit 1
exec "$PY" -c 'import numpy, scipy, matplotlib, yaml'
