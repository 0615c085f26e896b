#!/bin/sh
# check.sh <property id> [options of run.py]
cd "$(dirname "$0")" || exit 3
PYTHONHASHSEED=0; export PYTHONHASHSEED
PYTHONDONTWRITEBYTECODE=1; export PYTHONDONTWRITEBYTECODE
exec /opt/venv/bin/python run.py "$@"
