#!/bin/bash
# usage: run.sh C01 [--quick|--thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
id="$(echo "$1" | tr 'A-Z' 'a-z')"
shift
cd "$here" || exit 3
export PYTHONPATH="$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "checks/$id.py" "$@"
