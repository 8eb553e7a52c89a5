#!/bin/bash
# vio.sh ID PROP [v|vv]: verdicts with a planted bug
git -C /repo apply /verif/seeded/$1/patch.diff || exit 3
/opt/venv/bin/python /tmp/x/rep.py $2 quick $3 2>&1 | cut -c1-400 | head -50
git -C /repo checkout -q -- .
