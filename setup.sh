#!/bin/bash
# Checks that what the monitors need is there; nothing has to be built.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d) PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, scipy, numba, pyvista, matplotlib, pterasoftware; print('ok', pterasoftware.__file__)"
