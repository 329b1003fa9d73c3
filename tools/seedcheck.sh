#!/bin/bash
# usage: seedcheck.sh <seed id> [notest] [checks...]: validates a planted bug in a scratch copy of /repo
# (demo passes without / fails with the patch, stable tests pass with it) and runs the checks against it
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
notest=0; [ "$1" = notest ] && { notest=1; shift; }
d="$here/seeded/$id"; w="$(mktemp -d /tmp/sw.XXXXXX)"
trap 'find "$w" -mindepth 0 -delete' EXIT
cp -a /repo "$w/repo"; cp -r "$d" "$w/demo"
find "$w/demo" -name '*.diff' -delete; find "$w/demo" -name meta.json -delete
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$w/mpl" PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
mkdir -p "$w/mpl" "$w/t"
cd "$w/repo"
PYTHONPATH="$w/repo" TMPDIR="$w/t" timeout 300 bash "$w/demo/demo.sh" >"$w/d0" 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
PYTHONPATH="$w/repo" TMPDIR="$w/t" timeout 300 bash "$w/demo/demo.sh" >"$w/d1" 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1 ($(tail -1 "$w/d1" | cut -c1-150))"
[ $r0 = 0 ] || cat "$w/d0"
if [ $notest = 0 ]; then
  PYTHONPATH="$w/repo" TZ=UTC PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 tests/test_parallel_processing.py >"$w/t1" 2>&1 &
  PYTHONPATH="$w/repo" TZ=UTC PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 tests --ignore=tests/test_parallel_processing.py >"$w/t2" 2>&1 &
  wait
  echo "$id: tests: $(tail -1 "$w/t1") | $(tail -1 "$w/t2")"
  grep -h "^FAILED" "$w/t1" "$w/t2" | grep -v polarplot
fi
prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$d/meta.json")
for p in ${*:-$prop}; do
  rm -f "$w/out"
  RTV_REPO="$w/repo" RTV_NOEV=1 timeout 880 bash "$here/check.sh" "$p" quick >"$w/out" 2>&1; rc=$?
  echo "$id: check $p -> $rc $(grep -m1 -o '^VIOLATION[^/]*' "$w/out") $(grep -m1 '^---' "$w/out" | cut -c1-200)"
  [ $rc = 2 ] && tail -5 "$w/out"
done
