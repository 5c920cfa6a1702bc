"""Make a planted bug: mkseed(id, property, [(file, old, new)...], needs, breaks, demo)."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

SH = '''#!/bin/bash
# exit 0: property holds; nonzero: broken.  Runs in the repository's root.
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import copy, os, sys, tempfile, shutil, threading, time, glob, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
np.seterr(all='ignore')
SCRATCH = tempfile.mkdtemp(prefix='demo_')
import atexit
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
import falco
'''
TINY = '''import tiny


def build(**k):
    p = {'falco': SCRATCH}
    for x in ('brief', 'jac', 'ws'):
        p[x] = os.path.join(SCRATCH, x)
        os.makedirs(p[x], exist_ok=True)
    np.random.seed(3)
    return tiny.build(falco, p, **k)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol*np.max(np.abs(b))


'''


def mkseed(id_, prop, edits, needs, breaks, demo, tiny=True):
    d = os.path.join(VERIF, 'seeded', id_)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (id_, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=w + '/r')
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(HEAD + (TINY if tiny else '') + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + '/meta.json', 'w'), indent=1)
    if tiny:
        shutil.copy(VERIF + '/dst/tiny.py', d)
        shutil.copy(VERIF + '/dst/simpresc.py', d)
        os.makedirs(d + '/data', exist_ok=True)
        shutil.copy(VERIF + '/dst/data/inf_sim.fits', d + '/data')
    print('made', id_)
