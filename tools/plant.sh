#!/bin/bash
# plant.sh ID [ID..]: verify planted bugs against /repo (needs a clean tree): applies, builds, passes tests, demo fails with / passes without, check catches.
# plant.sh -n ID: skip the check
cd /repo; [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 2; }
NC=; [ "$1" = -n ] && { NC=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  D=$(mktemp -d); cp -r $d/. $D/; rm -f $D/*.diff $D/meta.json
  git apply --check $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  timeout 300 bash $D/demo.sh >/tmp/plant.demo0 2>&1; d0=$?
  git apply $d/patch.diff
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/plant.json'))['passed']);print(len(b-p))")
  timeout 300 bash $D/demo.sh >/tmp/plant.demo1 2>&1; d1=$?
  if [ -z "$NC" ]; then (cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 check.py $prop >/tmp/plant.check 2>&1); c=$?; else c=-; fi
  git checkout -q -- .
  echo "$id [$prop]: demo-clean=$d0 build=$b tests-lost=$t demo-bug=$d1 check=$c $(grep -h '^  [a-z]' /tmp/plant.check 2>/dev/null| head -2 | cut -c1-160 | tr '\n' '|')"
  /bin/rm -rf "$D"
done
