"""mkseed.py: build /verif/seeded/<id> from (file, old, new) edits and a demo program. Used as a library."""
import json, os, subprocess, shutil, tempfile
def mk(sid, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    s = tempfile.mkdtemp(prefix='/tmp/mkseed.')
    subprocess.check_call(['cp', '-a', '/repo/.', s])
    for f, old, new in edits:
        p = os.path.join(s, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', s, 'diff'], text=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n' + demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(s)
