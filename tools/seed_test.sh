#!/bin/bash
# seed_test.sh ID...: checks a planted bug: demo on clean and patched tree, the stable tests, and its property's check
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r $d /tmp/demo_$id
  (cd /repo; bash /tmp/demo_$id/demo.sh >/tmp/demo.out 2>&1); clean=$?
  [ $clean != 0 ] && tail -5 /tmp/demo.out
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOBUILD" ]; then bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || echo "$id: BUILD FAILS"; tests=$(bash /opt/vp/test.sh /tmp/o.json 2>/dev/null | tail -1); fi
  (cd /repo; bash /tmp/demo_$id/demo.sh >/tmp/demo.out 2>&1); bad=$?; tail -1 /tmp/demo.out
  [ $bad == 3 ] && tail -5 /tmp/demo.out
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check ${CHECK:-$prop} >/tmp/seedcheck.log 2>&1); rc=$?
  grep -E "^VIOLATION" /tmp/seedcheck.log
  git -C /repo apply -R $d/patch.diff; rm -rf /tmp/demo_$id
  echo "$id [$prop]: demo clean=$clean patched=$bad tests=$tests check=$rc"
done
[ -z "$NOBUILD" ] && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1
git -C /repo status --short
