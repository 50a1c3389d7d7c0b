#!/bin/bash
# nothing to build: checks encode /repo's current source on every run. Only verifies the interpreter and z3 are there.
cd "$(dirname "$0")"
mkdir -p evidence
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/opt/vp/plugins:$PWD" /opt/venv/bin/python -W ignore -c "from symx import api; print('ok')"
