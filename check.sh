#!/bin/bash
# usage: check.sh <PROPERTY-ID> [quick|thorough|replay FILE]
# Runs one model-checking harness against the working tree of /repo.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/mpl" "$SCRATCH/pyc" "$SCRATCH/work"
cp -f /opt/vp/mplconfig/*.json "$SCRATCH/mpl/" 2>/dev/null
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCRATCH/pyc" PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore
export PYTHONPATH="${VERIF_REPO:-/repo}:$HERE"
export VERIF_SCRATCH="$SCRATCH/work" TMPDIR="$SCRATCH/work"
export VERIF_REPO="${VERIF_REPO:-/repo}"
cd "$HERE" || exit 2
/opt/venv/bin/python -m mc.main "$@"
rc=$?
exit $rc
