#!/bin/bash
# runs the check of each planted bug's property (or the properties in $PROPS) against a scratch copy with the bug
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); prop=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $w/repo; git -C $w/repo checkout -q -- .; git -C $w/repo apply /verif/seeded/$id/patch.diff || echo "patch fails"
  for p in $prop; do
    PALM_REPO=$w/repo timeout 900 python3 -m palm.check $p > $w/out 2>&1; rc=$?
    echo "$id $p exit=$rc $(grep -c ^VIOLATION $w/out) $(grep -A0 '^  ' $w/out | head -2 | cut -c1-160)"
  done
  rm -rf "$w"
done
