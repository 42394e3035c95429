#!/opt/venv/bin/python
"""plant.py ID...: builds seeded/<ID> from tools/bugs.py, confirms it (tests pass, demo passes without and fails with it) and runs the check against it.
Everything happens in a scratch copy of /repo under /tmp."""
import json
import os
import re
import shutil
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from tools import bugs

PRE = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import warnings
warnings.simplefilter('ignore')
import numpy as np
import general_robotics_toolbox as rox
from general_robotics_toolbox import *
'''


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def one(b, notest=False):
    d = '/tmp/plant_%s_%d' % (b['id'], os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    env = {'PYTHONPATH': d + '/src', 'PYTHONDONTWRITEBYTECODE': '1'}
    out = os.path.join(HERE, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(out + '/demo.py', 'w') as f:
        f.write(PRE + b['demo'].strip('\n') + '\n')
    with open(out + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    with open(out + '/meta.json', 'w') as f:
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
    rc0, o0 = sh('bash %s/demo.sh' % out, d, env)
    for fn, old, new in b['edits']:
        p = d + '/src/general_robotics_toolbox/' + fn
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        # line ends and blank lines match loosely
        rx = re.compile('[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(x) for x in re.sub('\n[ \t]*\n', '\n', old).split('\n')))
        if len(rx.findall(s)) != 1:
            print(b['id'], 'EDIT matches %d times:' % len(rx.findall(s)), old)
            shutil.rmtree(d)
            shutil.rmtree(out)
            return
        s = rx.sub(lambda m: new, s)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    rc, diff = sh('git diff', d)
    open(out + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff'], cwd=d, capture_output=True).stdout.decode())
    rc1, o1 = sh('bash %s/demo.sh' % out, d, env)
    tests = 'skipped'
    if not notest:
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -n 4 test 2>&1 | tail -3', d, env)
        tests = o.strip().splitlines()[-1] if o.strip() else '?'
    t = time.time()
    rcs, oc = sh('./check %s --tier quick --noevidence' % b['prop'], HERE, {'SYMX_REPO': d})
    shutil.rmtree(d)
    ok = rc0 == 0 and rc1 != 0 and ('failed' not in tests)
    caught = rcs == 1 and 'VIOLATION property=%s' % b['prop'] in oc
    print('%-10s %s  demo %d/%d  tests: %s  check rc=%d %s %.0fs' % (b['id'], 'VALID' if ok else 'INVALID', rc0, rc1, tests, rcs, 'CAUGHT' if caught else 'MISSED', time.time() - t))
    if not ok:
        shutil.rmtree(out)
    if rc0:
        print(o0[-600:])
    if not caught:
        print(oc[-1200:])
    sys.stdout.flush()


ids = [a for a in sys.argv[1:] if not a.startswith('-')]
for b in bugs.B:
    if not ids or b['id'] in ids:
        one(b, '--notest' in sys.argv)
