#!/bin/bash
# validate a planted bug in a scratch copy: seedtest.sh ID [notest]
ID=$1
S=$(mktemp -d /tmp/seedrepo.XXXXXX)
cp -a /repo/. $S/
D=/verif/seeded/$ID
cd $S
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
bash $D/demo.sh >/tmp/seed_$ID.clean 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf $S; exit 1; }
bash $D/demo.sh >/tmp/seed_$ID.bug 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
  OMP_NUM_THREADS=1 PYTHONPATH=$S /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --benchmark-disable tests/common tests/time -o junit_family=xunit2 --junitxml=$S/r.xml >/tmp/seed_$ID.tests 2>&1
  python3 - $S/r.xml <<'PY' > /tmp/seed_$ID.res
import sys,json,xml.etree.ElementTree as E
base=json.load(open('/opt/vp/BASELINE.json'))
ids=base if isinstance(base,list) else (base.get('stable') or base.get('passed') or base.get('tests') or [])
t=E.parse(sys.argv[1]); ok=set(); bad=[]
n=0
for tc in t.iter('testcase'):
    n+=1
    if any(c.tag in('failure','error') for c in tc): bad.append(tc.get('classname')+'::'+tc.get('name'))
print(n-len(bad),'pass',len(bad),'fail',bad[:5])
PY
  t=$(cat /tmp/seed_$ID.res)
fi
echo "$ID: demo clean=$a bug=$b tests: $t"
cd /; rm -rf $S
