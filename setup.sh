#!/bin/bash
# Nothing to build: checks import the package from /repo's working tree.  Verifies the interpreter is usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONPATH=/repo:. JAX_PLATFORMS=cpu /opt/venv/bin/python -c "import jax, equinox, numpy; print('ok')"
