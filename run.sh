#!/bin/bash
# run.sh PROPERTY TIER: one check, from /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
exec /opt/venv/bin/python -m symx.runner --property "$1" --tier "${2:-quick}" "${@:3}"
