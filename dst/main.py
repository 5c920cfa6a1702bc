#!/usr/bin/env python3
"""Entry point:  main.py check ID [--tier quick|thorough] | replay FILE | show ID SEED I"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(
    OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
    NUMEXPR_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
    PYTHONHASHSEED=os.environ.get('DST_HASHSEED', '0'), LANG='C.UTF-8',
    LC_ALL='C.UTF-8', MALLOC_MMAP_THRESHOLD_='4294967296',
    MALLOC_TRIM_THRESHOLD_='8589934592', MALLOC_TOP_PAD_='67108864',
    PYTHONNOUSERSITE='1', TZ='UTC', PYTHONWARNINGS='ignore')
PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('DST_CHILD') != '1':
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER')
               or k.startswith('DST_')}
        env.update(ENV)
        env['DST_CHILD'] = '1'
        if os.path.isdir('/opt/venv/mplconfig'):
            env['MPLCONFIGDIR'] = '/opt/venv/mplconfig'
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', default=None)
    ap.add_argument('--n', type=int, default=None)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--cfg', default=None)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    import runner
    runner.setup_imports()
    seed = a.seed if a.seed is not None else os.environ.get('VERIF_SEED', '1')
    try:
        seed = int(seed)
    except ValueError:
        seed = runner.H(seed)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if a.cmd == 'check':
        rc = runner.check(a.what, tier, seed, a.n, a.workers, a.budget)
    elif a.cmd == 'replay':
        rc = runner.replay(a.what)
    else:
        raise SystemExit('unknown command')
    sys.stdout.flush()
    os._exit(rc)


main()
