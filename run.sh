#!/bin/bash
# run.sh ID [quick|thorough]: run one check against /repo's working tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=2 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m mc.run "$@"
