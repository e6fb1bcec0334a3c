#!/bin/bash
# Offline: puts hypothesis (from the sandbox's wheelhouse) next to the harness. The checks
# fall back on the copy in /opt/veriftools if this directory is not there.
here=$(cd "$(dirname "$0")" && pwd)
if ! PYTHONPATH="$here/.deps" /opt/venv/bin/python -c 'import hypothesis' 2>/dev/null; then
    /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels \
        --target "$here/.deps" hypothesis || echo "pip failed; the checks will use /opt/veriftools/pyvenv"
fi
cd "$here" && PYTHONPATH="/repo:$here" /opt/venv/bin/python -B -c 'import harness.core; print("harness ready")'
