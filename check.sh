#!/bin/bash
# Decide one property against /repo's working tree:  check.sh C01 [--tier thorough] ...
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMPI_MCA_ess_singleton_isolated=1 OPENMDAO_REPORTS=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0
export PYTHONPATH="$PWD:/repo/src"
SCRATCH=$(mktemp -d /tmp/verif-check.XXXXXX)
export VERIF_SCRATCH="$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -m vlib.run "$@"
