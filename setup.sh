#!/bin/bash
# The framework is plain Python; setup only confirms that it and the library import.
cd "$(dirname "$(realpath "$0")")" || exit 1
export HOME=/root JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD
/opt/venv/bin/python -c "import xtructure, mc.classes, mc.bfs, mc.supervisor; print('ok')"
