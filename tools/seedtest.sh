#!/bin/bash
# seedtest.sh ID...: validates seeded changes in a scratch copy and runs their property's check on them
for id in "$@"; do
  S=/verif/seeded/$id
  W=/tmp/seedtest.$id
  rm -rf "/tmp/seedtest.$id"
  cp -a /repo $W
  cd $W
  d0=x; bash $S/demo.sh >/tmp/seed.$id.clean 2>&1; d0=$?
  git apply $S/patch.diff || echo "$id: PATCH FAILS"
  (. /opt/vp/env.sh; cd $W; go build ./... >/tmp/seed.$id.build 2>&1) || echo "$id: BUILD FAILS"
  (. /opt/vp/env.sh; cd $W; go test ./internal/rfc6979/ >/tmp/seed.$id.test 2>&1) || echo "$id: TESTS FAIL"
  bash $S/demo.sh >/tmp/seed.$id.mut 2>&1; d1=$?
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif
  VERIF_REPO=$W python3-vt check.py $p quick >/tmp/seed.$id.check 2>&1; rc=$?
  echo "$id prop=$p demo clean=$d0 mutant=$d1 check rc=$rc $(grep -c 'FAILING INPUT' /tmp/seed.$id.check) inputs; $(grep VIOLATION /tmp/seed.$id.check | tail -1 | cut -c1-120)"
  rm -rf "/tmp/seedtest.$id"
done
