#!/bin/bash
# usage: check.sh <property id> | check.sh --replay <file>; honours VERIF_TIER (quick|thorough) and VERIF_SEED
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
exec /opt/venv/bin/python harness/core.py "$@"
