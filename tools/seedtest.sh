#!/bin/bash
# bash tools/seedtest.sh ID [notests] [nocheck]: confirm a planted change in a
# scratch copy of /repo: demo on clean and patched, stable tests, own check.
ID=$1; S=${V:-/verif}/seeded/$ID; D=/tmp/sr.$ID
rm -rf "$D"; mkdir "$D"
git -C /repo archive HEAD | tar -x -C "$D"
export WAKET_DISABLE_CACHING=1 PYTHONPATH=$D PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PATH=/opt/venv/bin:$PATH
cd "$D" || exit 1
bash "$S/demo.sh" > /tmp/sr.$ID.demo0 2>&1; echo "$ID demo clean: $? (0)"
patch -s -p1 < "$S/patch.diff" || { echo "$ID PATCH FAILS"; exit 1; }
bash "$S/demo.sh" > /tmp/sr.$ID.demo1 2>&1; echo "$ID demo patched: $? (!=0)"
case "$*" in *notests*) ;; *)
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 -n ${NPROC:-4} --dist loadfile --tb=line tests 2>&1 | tail -4 | sed "s/^/$ID tests: /";;
esac
case "$*" in *nocheck*) ;; *)
  P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  VP_REPO=$D bash ${V:-/verif}/run.sh ${CHECK:-$P} quick > /tmp/sr.$ID.check 2>&1; echo "$ID check ${CHECK:-$P}: $? (1)"; grep -h VIOLATION /tmp/sr.$ID.check | head -3;;
esac
cd /; rm -rf "$D"
