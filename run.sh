#!/bin/bash
# ./run.sh C01 [--tier thorough] [--replay FILE]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B check.py "$@"
