#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src. Fail early if the tools are missing.
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, numpy, scipy, lal, lalsimulation"
