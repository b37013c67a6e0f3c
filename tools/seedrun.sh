#!/bin/bash
# usage: seedrun.sh [-t] ID...   applies each planted bug to /repo, runs its demo and its property's check
# (and with -t the stable tests), reverts, and prints one line per bug.
T=0; [ "$1" = "-t" ] && { T=1; shift; }
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed-$id-clean.log 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed-$id-bug.log 2>&1); b=$?
  tests=skipped
  if [ $T = 1 ]; then
    bash /opt/vp/build.sh >/tmp/seed-$id-build.log 2>&1 || tests=BUILDFAIL
    [ $tests = BUILDFAIL ] || { bash /opt/vp/test.sh /tmp/seed-$id-t.json >/dev/null 2>&1
    tests=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed-$id-t.json'))['passed'])
print('ok' if b<=p else 'FAILS:'+str(sorted(b-p)[:3]))"); }
  fi
  VERIF_SEED=1 ./check $prop >/tmp/seed-$id-check.log 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id $prop demo clean=$c bug=$b tests=$tests check=$k $(grep -m1 VIOLATION /tmp/seed-$id-check.log | cut -c1-90)"
done
