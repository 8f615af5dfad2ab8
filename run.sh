#!/bin/bash
# run.sh PROPERTY [args]: run one check against /repo's current tree
cd "$(dirname "$0")"
. /opt/vp/lib/env.sh >/dev/null 2>&1
export PMIX_MCA_gds=hash PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
exec /opt/venv/bin/python -W ignore run.py "$@"
