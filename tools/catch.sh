#!/bin/bash
# run the check of a planted bug's property against a patched scratch copy: catch.sh ID
ID=$1
S=$(mktemp -d /tmp/catchrepo.XXXXXX)
cp -a /repo/. $S/
D=/verif/seeded/$ID
git -C $S apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf $S; exit 1; }
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /verif
t0=$(date +%s)
VERIF_REPO=$S VERIF_EVIDENCE=$S/ev VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run.py check $P --tier quick >/tmp/catch_$ID.$P.log 2>&1; rc=$?
t1=$(date +%s)
echo "$ID $P rc=$rc $((t1-t0))s $(grep -c '^NOT DISCH' /tmp/catch_$ID.$P.log) notdisch; $(grep -E '^(VIOLATION|failing input)' /tmp/catch_$ID.$P.log | cut -c1-160 | tr '\n' ' ')"
cd /; rm -rf $S
