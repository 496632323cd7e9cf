#!/bin/bash
# usage: plant.sh ID [notest]   verifies one planted bug in a scratch copy of /repo: demo, stable tests, its check
id="$1"; here="$(cd "$(dirname "$0")/.." && pwd)"; d="$here/seeded/$id"
w="$(mktemp -d /tmp/plant.XXXXXX)"
cp -a "${PLANT_REPO:-/repo}" "$w/repo"; cp -a "$d" "$w/demo"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$w/mpl" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$w/repo"
bash "$w/demo/demo.sh" >"$w/log0" 2>&1; echo "$id demo clean: $?"
git apply "$d/patch.diff" || echo "$id DOES NOT APPLY"
bash "$w/demo/demo.sh" >"$w/log1" 2>&1; echo "$id demo patched: $?   $(tail -1 "$w/log1")"
if [ "$2" != notest ]; then
  mkdir -p examples/output; cd examples/modelling
  /opt/venv/bin/pytest -q --rootdir="$w/repo" --confcutdir="$w/repo" -p no:cacheprovider -n 8 --show_plot=False --timeout=300 --continue-on-collection-errors --tb=short -W ignore --ignore="$w/repo/examples/modelling/test_pcp.py" -o junit_family=xunit2 --junitxml="$w/r.xml" "$w/repo" >"$w/tlog" 2>&1
  cd "$w/repo"
  sed -i "s#$w/repo#/repo#g" "$w/r.xml"
  python3 /opt/vp/results.py "$w/out.json" junit:"$w/r.xml" >/dev/null
  python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/out.json'))['passed'])
print('$id stable tests missing:', sorted(b-o)[:5], len(o))"
fi
prop="$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")"
MC_REPO="$w/repo" "$here/run.sh" "$prop" --tier quick > "$w/clog" 2>&1; echo "$id check $prop: $?  $(grep -c . "$w/clog") lines; $(grep 'violations by tag' "$w/clog")"
cd /; case "$w" in /tmp/plant.??????) rm -rf -- "$w";; esac
