#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-quick}" VERIF_SEED="${VERIF_SEED:-1}" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/lib"
f=$(ls checks/"$(echo "$1" | tr 'A-Z' 'a-z')"_*.py | head -1)
exec /opt/vp/venv/bin/python -B "$f"
