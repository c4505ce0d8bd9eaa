#!/bin/bash
# nothing is built: the checks import /repo's working tree; make sure the interpreter and modules are there
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -c "import numpy, scipy, pandas, h5py; import dst.runner; print('ok')"
