#!/bin/bash
# check.sh PROPERTY : run one property's check (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")"
export HOME=/root MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/vsx_mpl}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -m vsx.run "$@"
