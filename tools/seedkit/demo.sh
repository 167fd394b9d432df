#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
. "$d/build.sh"
kit_build "$w/b" $(cat "$d/targets") || exit 3
export PYTHONDONTWRITEBYTECODE=1 KIT_SO="$w/b" KIT_SCRATCH="$w" OPENBLAS_NUM_THREADS=1 JAX_PLATFORMS=cpu
timeout 200 /opt/vp/venv/bin/python -B "$d/demo.py"
