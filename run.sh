#!/bin/bash
# run.sh <property id> [--replay FILE | --one INDEX | --cases N]
# Runs the monitors of one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$REPO" PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE
export PYTHONDONTWRITEBYTECODE=1
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXX")" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH" VERIF_REPO="$REPO"
export MPLCONFIGDIR="$SCRATCH/mpl"
if [ "$1" = C24 ]; then
    gcc -shared -fPIC -O1 -o "$SCRATCH/iofault.so" mon/native/iofault.c -ldl || exit 2
    export LD_PRELOAD="$SCRATCH/iofault.so"
fi
/opt/venv/bin/python -W ignore -m mon "$@"
