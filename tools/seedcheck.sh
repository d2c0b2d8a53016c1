#!/bin/bash
# Try planted bugs: for each id under seeded/, apply to /repo, build, test,
# run its demo and the check of its property, undo.
# usage: seedcheck.sh [--no-check] ID...
cd /verif || exit 2
nocheck=
[ "$1" = --no-check ] && { nocheck=1; shift; }
for id in "${@:-$(ls seeded)}"; do for i in $id; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  sc=$(mktemp -d /tmp/demo.XXXXXX); cp -a $d/. $sc/; rm -f $sc/*.diff $sc/meta.json
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && bash $sc/demo.sh >/tmp/demo.out 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$i: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 -c "import json;r=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(len([x for x in b if x not in r['passed']]))")
  (cd /repo && bash $sc/demo.sh >/tmp/demo.out2 2>&1); c=$?
  k=-
  if [ -z "$nocheck" ]; then python3 run.py $p >/tmp/seed.chk 2>&1; k=$?; fi
  git -C /repo checkout -q -- .
  rm -rf "$sc"
  echo "$i ($p): demo clean=$a patched=$c build=$b failed_tests=$t check=$k $(grep -m1 '^suite' /tmp/seed.chk)"
done; done
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
