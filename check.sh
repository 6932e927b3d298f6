#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--seed N] [--only scenario,...] [--replay file]
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PIP_NO_INDEX=1 PROJ_NETWORK=OFF
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 GDAL_NUM_THREADS=1 TZ=${RV_TZ:-UTC}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m rv.main "$@"
