#!/bin/sh
# Nothing has to be built: the checks import amazon.ion from /repo.  This only makes sure that they can.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); sys.path.insert(0, '.'); import amazon.ion.simpleion, ionpbt.adapt"
