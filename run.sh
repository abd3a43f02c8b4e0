#!/bin/bash
# usage: bash run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one check against /repo's current working tree, in a fresh process with
# an empty private JIT cache (so no machine code of an older source is reused).
cd "$(dirname "$0")" || exit 2
PID_="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
export VERIF_TIER="$TIER"
export VERIF_SEED="${VERIF_SEED:-1}"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXX")" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH"
export NUMBA_CACHE_DIR="$SCRATCH/numba" HOME="$SCRATCH" TMPDIR="$SCRATCH"
mkdir -p "$NUMBA_CACHE_DIR"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_HASHSEED:-0}" LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$(pwd)/mc:/repo" PYTHONUNBUFFERED=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" mc/main.py "$PID_" "$@"
