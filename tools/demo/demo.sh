#!/bin/bash
# exit 0: behaves; non-zero: does not.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir -p "$T/home"
PYTHONPATH="$PWD/src:$D" timeout 280 /opt/venv/bin/python "$D/demo.py" "$T"
