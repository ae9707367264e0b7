#!/bin/bash
# run.sh <property id> [quick|thorough]: run one check
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1
exec python3 "checks/$1.py"
