#!/bin/bash
# conc/run.sh PROP [worker args]: one concrete worker in a scratch home, with the repository's own environment settings
CONC_DIR=$(dirname "$(readlink -f "$0")")
T=$(mktemp -d /tmp/conc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" MPLCONFIGDIR="$T/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$T/pyc" MPLBACKEND=Agg \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8 CONC_SCRATCH="$T" PYTHONHASHSEED=${PYTHONHASHSEED:-0}
mkdir -p "$HOME"; printf 'workspace: %s\n' "$T/workspace" > "$HOME/.pygmofwork"
cd "$T" || exit 2
/opt/venv/bin/python "${CONC_DIR}/worker.py" "$@"
