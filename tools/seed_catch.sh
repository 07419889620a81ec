#!/bin/bash
# seed_catch.sh SECS ID [PROP...]: runs checks (by default the property of the planted bug) against a scratch copy with the bug
SECS=$1; ID=$2; shift 2
S=/verif/seeded/$ID; T=/tmp/sb/k-$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
mkdir -p /tmp/sb; git clone -q /repo "$T"; git -C "$T" apply "$S/patch.diff" || exit 1
for p in $P; do
  s=$(date +%s)
  DSIM_REPO=$T DSIM_SECS=$SECS DSIM_EVIDENCE=/tmp/sb/k-$ID.$p.json bash /verif/dsim/check.sh $p > /tmp/sb/k-$ID.$p.log 2>&1; r=$?
  echo "$ID $p rc=$r $(( $(date +%s) - s ))s $(grep -m1 -h VIOLATION /tmp/sb/k-$ID.$p.log) $(grep -m1 -h 'kind' /tmp/sb/k-$ID.$p.log | cut -c1-120)"
done
find "$T" -delete
