#!/bin/bash
# usage: bash run.sh C01 [quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONPATH="${VERIF_REPO:-/repo}" TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -B lib/main.py "$@"
