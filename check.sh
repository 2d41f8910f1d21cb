#!/bin/bash
# check.sh PROPERTY [quick|thorough] [further options of pbt/run.py]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
property=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
cache=$(mktemp -d)
trap '/bin/rm -rf "$cache"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$cache PYTHONPATH=$here LC_ALL=C.UTF-8
export HYPOTHESIS_STORAGE_DIRECTORY=$cache/hypothesis
/opt/venv/bin/python -B -m pbt.run "$property" --tier "$tier" "$@"
