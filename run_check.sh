#!/bin/bash
# Usage: run_check.sh <property-id> <quick|thorough> [extra args]
# Runs one property's monitor against the current working tree of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="$2"; shift 2
mpl="$(mktemp -d "${TMPDIR:-/tmp}/vmpl.XXXXXX")"
trap 'rm -r -f "$mpl"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER="$tier"
unset PYTHONPATH PYTHONSTARTUP
/opt/venv/bin/python -s "$here/checks/$(echo "$id" | tr 'A-Z' 'a-z').py" "$@"
