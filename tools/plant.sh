#!/bin/bash
# tools/plant.sh ID [-t] [-c]   try one planted bug in a scratch copy of /repo
#   -t also run the stable tests with the bug, -c also run the property's quick check
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
d=$here/seeded/$id
w=/dev/shm/plant-$id-$$
cp -a /repo $w || exit 9
trap 'rm -rf "$w"' EXIT
export PYTHONPATH=$w/py PYTHONDONTWRITEBYTECODE=1
cp -a $d $w.seed; rm -f $w.seed/patch.diff $w.seed/meta.json
trap 'rm -rf "$w" "$w.seed"' EXIT
(cd $w && timeout 300 bash $w.seed/demo.sh >$w.log 2>&1); a=$?
[ $a -ne 0 ] && tail -5 $w.log
git -C $w apply $d/patch.diff || { echo "$id: does not apply"; exit 8; }
(cd $w && timeout 300 bash $w.seed/demo.sh >$w.log 2>&1); b=$?
[ $b -eq 0 ] && tail -5 $w.log
rm -f $w.log
t=-
if [[ " $* " == *" -t "* ]]; then
  (cd $w && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 py/desimeter/test >$w.log 2>&1); t=$?
  [ $t -ne 0 ] && tail -5 $w.log; rm -f $w.log
fi
c=-
if [[ " $* " == *" -c "* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $here && DSIM_REPO=$w DSIM_OUT=/dev/shm VERIF_SEED=1 /opt/venv/bin/python check.py $p --tier quick >$w.log 2>&1); c=$?
  tail -3 $w.log | cut -c1-300; rm -f $w.log
fi
echo "$id: demo clean=$a planted=$b tests=$t check=$c"
