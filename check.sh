#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   (or: check.sh <id> --replay FILE)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
id="$1"; shift
arg="${1:-${VERIF_TIER:-quick}}"
py=/opt/venv/bin/python
bash "$here/setup.sh" >/dev/null || { echo "setup failed"; exit 2; }
scratch="$(mktemp -d /tmp/rtv.XXXXXX)" || exit 2
trap 'find "$scratch" -mindepth 0 -delete 2>/dev/null' EXIT
export RTV_SCRATCH="$scratch" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore TMPDIR="$scratch"
repo="${RTV_REPO:-/repo}"
export PYTHONPATH="$here:$here/.deps:$repo"
mkdir -p "$scratch/mpl"
if [ "$arg" = "--replay" ]; then
  "$py" -m rtv.runner "$id" --replay "$2"
else
  "$py" -m rtv.runner "$id" --tier "$arg"
fi
rc=$?
exit $rc
