#!/bin/bash
# usage: run.sh Cxx [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR="$S/mpl" HOME="$S" MC_SCRATCH="$S" XMPS_REPO="${XMPS_REPO:-/repo}"
export PYTHONPATH="$PWD:$XMPS_REPO"
P=$(echo "$1" | tr 'C' 'c'); shift
R="$PWD"
cd "$S" || exit 2
MC_MAIN=1 /opt/venv/bin/python -W ignore -c '
import sys
from mc import core
rep = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
sys.exit(core.main("checks." + sys.argv[1], rep))' "$P" "$@"
