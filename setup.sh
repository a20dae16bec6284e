#!/bin/bash
# Nothing is built ahead: checks import /repo/src and run TLC on spec/*.tla directly.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
for t in tlc gcc java; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import offline, common, mccode_antlr"
