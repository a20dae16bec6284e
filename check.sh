#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python harness/run_check.py "$1" "${2:-${VERIF_TIER:-quick}}"
