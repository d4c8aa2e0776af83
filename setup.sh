#!/bin/bash
# Nothing to build: verify that the interpreter can import the code under test.
cd "$(dirname "$0")" || exit 2
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0,'/repo/src'); import cr.sparse, cr.sparse.lop, scipy; print('ok')"
