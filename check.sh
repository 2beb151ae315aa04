#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
exec /opt/venv/bin/python engine/run.py "$@"
