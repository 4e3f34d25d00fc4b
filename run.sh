#!/bin/bash
# bash run.sh ID [--tier quick|thorough] [--seed N] [--replay FILE]: one check, against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH="$here/lib:$here/checks"
exec /opt/venv/bin/python "$here"/checks/"$id"_*.py "$@"
