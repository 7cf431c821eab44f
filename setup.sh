#!/bin/bash
# Nothing to compile: the checks import the package from /repo/src.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \
    /opt/venv/bin/python -c "import opinf, h5py, scipy; print('ready')"
