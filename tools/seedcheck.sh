#!/bin/bash
# usage: tools/seedcheck.sh ID...   confirms seeded bugs: patch applies and touches original lines, stable tests pass with it,
# demo passes without and fails with it; then runs the property's quick check against it (all on scratch copies).
here=$(cd "$(dirname "$0")/.." && pwd)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1
for id in "$@"; do
  s=$here/seeded/$id; d=$(mktemp -d /tmp/seed-XXXXXX); cp -a /repo/. "$d/"
  run_demo() { (cd "$d" && timeout 300 bash "$s/demo.sh" >"/tmp/demo-$id.log" 2>&1); echo $?; }
  before=$(run_demo)
  git -C "$d" apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$d"; continue; }
  after=$(run_demo)
  orig=$(cd "$d" && git diff -U0 | /opt/venv/bin/python "$here/tools/origlines.py")
  tests=$(cd "$d" && MPLCONFIGDIR=/tmp/mplc PYTHONHASHSEED=0 timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --dist loadfile -W ignore --timeout=300 --tb=no -o junit_family=xunit2 --junitxml="$d/rep.xml" GPyOpt/testing >/dev/null 2>&1; /opt/venv/bin/python /opt/vp/results.py "$d/o.json" junit:"$d/rep.xml" >/dev/null; /opt/venv/bin/python "$here/tools/stable.py" "$d/o.json")
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t0=$SECONDS
  ev=$(mktemp -d /tmp/ev-XXXXXX)
  GPYOPT_REPO=$d VERIF_OUT=$ev python3 "$here/check.py" $prop --tier quick --seed ${SEED:-1} >"/tmp/chk-$id.log" 2>&1; rc=$?
  echo "$id $prop demo $before/$after orig=$orig tests=$tests check=$rc $(grep -m1 -o 'kind=[a-z_-]*' /tmp/chk-$id.log) $((SECONDS-t0))s $(grep -c VIOLATION /tmp/chk-$id.log)"
  rm -rf "$d" "$ev"
done
