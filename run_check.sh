#!/bin/bash
# usage: run_check.sh <property id> [--tier quick|thorough] [--replay file]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset GENERATE_VCDS
cd "$here" || exit 2
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, sys.argv[1]); from harness.core import main; sys.exit(main(sys.argv[2:]))' "$here" "$@"
