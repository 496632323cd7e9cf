#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay file] [--space name] ...
# runs the check of one property against the working tree of /repo, in a scratch directory of its own
here="$(cd "$(dirname "$0")" && pwd)"
repo="${MC_REPO:-/repo}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" HOME="$scratch" MC_SCRATCH="$scratch"
export PYTHONPATH="$repo:$here"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$scratch" || exit 2
"$py" -W ignore -m mc "$@"
rc=$?
cd /
case "$scratch" in */mc.??????) rm -rf -- "$scratch";; esac
exit $rc
