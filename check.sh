#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [harness-substring]   |   check.sh --replay <file>
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
PY="${PY:-/opt/venv/bin/python}"
export PYTHONPATH="/opt/vp/plugins:$here${PYTHONPATH:+:$PYTHONPATH}"
[ -n "$VERIF_SRC" ] && export PYTHONPATH="$(dirname "$VERIF_SRC"):$PYTHONPATH"  # development: a copy of the tree
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TORCH_COMPILE_DISABLE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here"
exec "$PY" -W ignore -m symx.runner "$@"
