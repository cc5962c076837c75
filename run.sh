#!/bin/bash
# bash run.sh <property id> [quick|thorough] [--replay FILE] [--group NAME]
# Runs one check against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export PATH=/opt/venv/bin:$PATH; fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
export OMP_WAIT_POLICY=PASSIVE GOMP_SPINCOUNT=0
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
unset PYTHONPATH
exec python -W ignore "$here/lib/main.py" "$id" "$@"
