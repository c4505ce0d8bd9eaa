#!/bin/bash
# check.sh <property> [quick|thorough]   (run from /verif)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m dst.runner check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
