#!/bin/bash
# development helper: validate planted bugs in a scratch copy, then run their property's check on /repo with the patch applied
# usage: tools/plant.sh ID...
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/plant_scratch
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PROJ_NETWORK=OFF
for id in "$@"; do
  D=$V/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$D/meta.json")
  mkdir -p $S && rsync -a --delete /repo/ $S/repo/ 2>/dev/null || { rm -rf /tmp/plant_scratch/repo; cp -a /repo $S/repo; }
  rm -rf /tmp/plant_scratch/demo; cp -a "$D" $S/demo
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh) >$S/out0 2>&1; a=$?
  git -C $S/repo apply "$D/patch.diff" || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh) >$S/out1 2>&1; b=$?
  (cd $S/repo && $PY -m pytest tests/tests tests/timings -q -p no:cacheprovider -W ignore --timeout=300 --continue-on-collection-errors) >$S/out2 2>&1
  t=$(tail -1 $S/out2)
  git -C /repo apply "$D/patch.diff"
  (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop --no-evidence) >$S/out3 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id $prop: demo unchanged=$a patched=$b tests=[$t] check=$c $(grep -m1 -E 'VIOLATION|violat' $S/out3)"
done
