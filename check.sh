#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m mc "$@"
