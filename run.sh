#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough] [--only TEST] [--replay FILE] [--n FACTOR]
# Runs one property's generated-input checks against /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export HF_HUB_OFFLINE=1 HF_DATASETS_OFFLINE=1 TRANSFORMERS_OFFLINE=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
[ -x "$PY" ] || PY=python3
exec "$PY" -X faulthandler -W ignore -m vt.run "$@"
