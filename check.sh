#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -m vf.run "$1"
