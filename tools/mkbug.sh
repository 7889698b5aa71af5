#!/bin/bash
# mkbug.sh <id>...: confirm planted bugs in scratch copies of /repo (under /tmp/e57bug).
# Expects seeded/<id>/{patch.diff,demo.sh,meta.json}. Builds, runs the stable tests, runs the demo with
# and without the patch. Prints OK or what failed.
set -u
w=/tmp/e57bug
mkdir -p $w
for t in clean bug; do
  mkdir -p $w/$t
  rsync -a --delete --checksum --exclude _build /repo/ $w/$t/
  sed "s#/repo#$w/$t#g" /opt/vp/build.sh > $w/build-$t.sh
  sed "s#/repo#$w/$t#g; s#/opt/vp/build.sh#$w/build-$t.sh#g" /opt/vp/test.sh > $w/test-$t.sh
done
bash $w/build-clean.sh > $w/build-clean.log 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  ( cd $w/bug && git checkout -q -- . && git apply $d/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  bash $w/build-bug.sh > $w/build-bug.log 2>&1 || { echo "$id: build failed"; grep -m5 error $w/build-bug.log; continue; }
  bash $w/test-bug.sh $w/out.json > $w/test.log 2>&1
  python3 - $w/out.json <<'P' || { echo "$id: stable tests fail"; continue; }
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
want=set(b['stable'])
miss=want-set(o['passed'])
if miss: print('missing',sorted(miss)[:5]); sys.exit(1)
P
  rm -rf $w/demo; cp -r $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  ( cd $w/clean && timeout 300 bash $w/demo/demo.sh > $w/demo-clean.log 2>&1 ); c=$?
  ( cd $w/bug && timeout 300 bash $w/demo/demo.sh > $w/demo-bug.log 2>&1 ); b=$?
  if [ $c = 0 ] && [ $b != 0 ]; then echo "$id OK (demo with bug: exit $b)"; else echo "$id BAD: clean=$c bug=$b"; tail -n 4 -q $w/demo-clean.log $w/demo-bug.log; fi
done
