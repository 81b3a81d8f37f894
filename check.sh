#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
p="$1"; t="${2:-quick}"; shift; shift
exec /opt/venv/bin/python run.py "$p" --tier "$t" "$@"
