#!/bin/bash
# run.sh <property> [options]: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -m vh.run "$@"
