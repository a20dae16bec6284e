#!/bin/bash
# seedtest.sh NAME...: confirm planted bugs in scratch copies and run the check of their property on them
cd /verif
for name in "$@"; do
  s=/verif/seeded/$name; w=/tmp/sw-$name
  rm -rf "$w"; cp -a /repo "$w"
  if ! git -C "$w" apply "$s/patch.diff"; then echo "$name: patch does not apply"; rm -rf "$w"; continue; fi
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  ( . /opt/vp/env.sh; cd "$w"; export PYTHONPATH=$w/src
    python -m pytest -q -p no:cacheprovider --ignore=tests/test_registry.py -o junit_family=xunit2 --junitxml="$OFF/j.xml" tests >/dev/null 2>&1
    python3 /opt/vp/results.py /tmp/seed-$name.json junit:"$OFF/j.xml" >/dev/null )
  tests=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed-$name.json'))['passed']
print(sorted(b-set(o)) or 'ok')
P
)
  d=$(mktemp -d /tmp/demo.XXXX); cp -a "$s"/. "$d"/; rm -f "$d"/*.diff "$d"/meta.json
  (cd /repo; bash "$d/demo.sh" >/tmp/seed-$name.clean 2>&1); clean=$?
  (cd "$w"; PYTHONPATH=$w/src bash "$d/demo.sh" >/tmp/seed-$name.bug 2>&1); bug=$?
  rm -rf "$d"
  if [ -z "$NOCHECK" ]; then
    VERIF_REPO=$w ./check.sh $prop quick >/tmp/seed-$name.check 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$prop" /tmp/seed-$name.check)
  fi
  echo "$name $prop tests=$tests demo clean=$clean bug=$bug check rc=$rc violations=$v"
  rm -rf "$w"
done
