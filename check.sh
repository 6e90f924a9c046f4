#!/bin/bash
# Usage: ./check.sh CXX [--tier quick|thorough] [--seed N] [--replay FILE] ...
# Runs one check against /repo's working tree; everything it writes goes to a scratch directory,
# evidence/<id>.json and (for violations) replays/.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
scratch=$(mktemp -d /tmp/ocelot-verif.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/tmp" "$scratch/data" "$scratch/out" "$scratch/pyc" "$scratch/home"
export TMPDIR="$scratch/tmp" XDG_DATA_HOME="$scratch/data" OCELOT_OUTPUT="$scratch/out" HOME="$scratch/home"
export PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore -m harness.run "$@"
exit $?
