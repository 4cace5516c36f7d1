#!/bin/sh
# Nothing to compile: checks import /repo/src directly. Make sure that works here.
cd "$(dirname "$0")" || exit 1
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mc.env, fedservice, mc.fed"
