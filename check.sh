#!/bin/bash
# check.sh PROPERTY [options]   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt harness/run.py "$@"
