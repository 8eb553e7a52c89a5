#!/bin/bash
# trybug.sh ID [tier] [extra property ids...]: apply a planted bug in a copy of /repo, which takes the place of /repo in
# a mount namespace of its own, and run the check of its property (and others)
ID=$1; TIER=${2:-quick}; shift; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
W=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a ${REPO:-/repo} $W/repo
git -C $W/repo checkout -q -- . ; git -C $W/repo apply /verif/seeded/$ID/patch.diff || { rm -rf $W; exit 3; }
for p in $P ${@//,/ }; do
  unshare -m bash -c "mount --bind $W/repo /repo; cd /verif; /opt/venv/bin/python harness/check.py $p $TIER" > $W/out 2>&1; rc=$?
  echo "$ID $p rc=$rc $(grep -m1 -o '# .*' $W/out | cut -c1-150)"
done
rm -rf $W
