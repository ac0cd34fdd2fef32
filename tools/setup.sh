#!/bin/bash
# Nothing to build: the package is pure Python and is imported from /repo.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
mkdir -p evidence
PYTHONPATH=/repo:"$PWD" /opt/venv/bin/python -W ignore -c "import parametricmatrixmodels, vlib.run"
