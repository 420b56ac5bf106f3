#!/bin/bash
# Offline setup: put hypothesis (from the local wheelhouse) into /verif/.deps.
# Checks also work without it: they fall back to the preinstalled hypothesis.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ ! -d "$here/.deps/hypothesis" ]; then
  "$PY" -m pip install --quiet --no-index --no-deps --find-links /opt/veriftools/wheels \
    --target "$here/.deps" hypothesis sortedcontainers >/dev/null 2>&1 || true
fi
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import sys; sys.path.insert(0, '$here'); import vt.deps; import hypothesis; print('hypothesis', hypothesis.__version__)"
