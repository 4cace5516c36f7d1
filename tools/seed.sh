#!/bin/bash
# seed.sh ID [CHECK...]: confirms a planted bug in a scratch copy and runs its check against it
set -u
V=/verif; S=$V/seeded/$1; id=$1; shift
W=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo $W/repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $W/repo
bash $S/demo.sh >$W/d0 2>&1; a=$?
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
bash $S/demo.sh >$W/d1 2>&1; b=$?
cp -r tests $W/tests; rm $W/tests/__init__.py; PYTHONPATH=$W/repo/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=$W $W/tests/test_05_constraints.py $W/tests/test_08_trust_mark_file_db.py >$W/t 2>&1; t=$(tail -1 $W/t)
for c in ${@:-$prop}; do
  (cd $V; FEDSERVICE_REPO=$W/repo timeout 900 ./run.sh $c --quick >$W/c 2>&1); r=$?
  v=$(grep -c "^VIOLATION property=$c" $W/c)
  echo "$id: demo clean=$a patched=$b | tests: $t | $c exit=$r violations=$v"
  [ $r = 1 ] || tail -5 $W/c
done
[ $a = 0 ] || cat $W/d0
[ $b = 0 ] && cat $W/d1
rm -rf "$W"
