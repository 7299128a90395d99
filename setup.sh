#!/bin/bash
# Nothing to build (pure Python); make sure the interpreter and the library are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import edk2toollib, sys; print('edk2toollib from', edk2toollib.__file__, sys.version.split()[0])"
