#!/bin/bash
# nothing to build: pure Python.  Fails early when the interpreter or the library is missing.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
from mc import lib, model, schema
assert lib.encode is not None
print('setup ok')
P
