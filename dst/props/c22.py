"""Thin-film tables that were kept on disk are those of the request."""
import contextlib
import io
import os
import shutil
import sys

import numpy as np

from props import common as C
import faults as F
import sim as S

ID = 'C22'
QUICK = 500
RULE = ('a run counts when several processes shared the tables or a fault '
        'happened; distinct by (requests, schedule, fault)')
REAL = 'falco.thinfilm (gen_complex_trans_table, calc_complex_trans_matrix), numpy file format'
STUB = ('processes are simulated; simulated disk below the Python file API; the '
        'package believes to be installed in a scratch directory')

BASE = {'lam': 550e-9, 'bw': 0.1, 'Nsbp': 1, 'Nw': 1, 'aoi': 5.5, 'tTi': 3.0, 'd0': 4.,
        'sub': 'FS', 'diel': 'PMGI', 'metal': [95., 105.], 'tdiel': [0., 200.],
        'dm': 10., 'dd': 200., 'refl': False}
# small and large changes of one parameter
CHANGES = [('lam', 550.4e-9), ('lam', 575e-9), ('lam', 550.01e-9), ('bw', 0.2), ('bw', 0.1003),
           ('Nsbp', 2), ('Nsbp', 3), ('Nw', 2), ('Nw', 3), ('aoi', 0.), ('aoi', 5.52),
           ('tTi', 3.04), ('tTi', 2.), ('d0', 5.), ('d0', 4.01), ('sub', 'N-BK7'),
           ('diel', 'MgF2'), ('metal', [95., 97., 105.]), ('metal', [95.02, 105.]),
           ('metal', [0., 105.]), ('tdiel', [0., 50., 200.]), ('tdiel', [0., 200.04]),
           ('dd', 100.), ('dm', 5.), ('refl', True)]


def gen(rng, i):
    reqs = [dict(BASE)]
    for _ in range(rng.choice([1, 2, 3])):
        r = dict(rng.choice(reqs))
        for k, v in rng.sample(CHANGES, rng.choice([1, 1, 1, 2])):
            r[k] = v
        reqs.append(r)
    np_ = rng.choice([1, 1, 2, 3])
    cfg = {'reqs': reqs, 'procs': [[rng.randrange(len(reqs)) for _ in range(
        rng.choice([1, 2, 3, 4]))] for _ in range(np_)], 'fault': None, 'sched': C.sched(rng)}
    if rng.random() < 0.6:
        cfg['fault'] = [rng.choice(['crash', 'power', 'worker', 'enospc', 'eio']),
                        rng.random(), rng.randrange(1 << 30)]
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    for k, p in enumerate(cfg['procs']):
        if len(cfg['procs']) > 1:
            yield dict(cfg, procs=cfg['procs'][:k] + cfg['procs'][k+1:])
        for j in range(len(p)):
            if len(p) > 1:
                yield dict(cfg, procs=cfg['procs'][:k] + [p[:j] + p[j+1:]] + cfg['procs'][k+1:])
    yield from C.shrink_keys(cfg, {'fault': None})
    for k, r in enumerate(cfg['reqs']):
        for key, v in BASE.items():
            if r[key] != v:
                yield dict(cfg, reqs=cfg['reqs'][:k] + [dict(r, **{key: v})] + cfg['reqs'][k+1:])


def model(falco, r):
    mp = falco.config.Object()
    mp.F3 = falco.config.Object()
    mp.full = falco.config.Object()
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric = r['sub'], 'Ni', r['diel']
    mp.F3.d0fac = r['d0']
    mp.t_Ti_nm, mp.aoi = r['tTi'], r['aoi']
    mp.t_metal_nm_vec, mp.t_diel_nm_vec = np.array(r['metal']), np.array(r['tdiel'])
    mp.dt_metal_nm, mp.dt_diel_nm = r['dm'], r['dd']
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp = r['lam'], r['bw'], r['Nsbp'], r['Nw']
    f = np.linspace(-.5, .5, r['Nsbp'] + 2)[1:-1] if r['Nsbp'] > 1 else np.zeros(1)
    mp.sbp_centers = r['lam']*(1 + r['bw']*f)
    g = np.linspace(-.2, .2, r['Nw']) if r['Nw'] > 1 else np.zeros(1)
    mp.full.lambdas = (mp.sbp_centers[:, None]*(1 + r['bw']*g/r['Nsbp'])).ravel()
    return mp


def oracle(falco, r):
    mp = model(falco, r)
    res = []
    for lams in (mp.sbp_centers, mp.full.lambdas):
        t = [falco.thinfilm.calc_complex_trans_matrix(
            r['sub'], 'Ni', r['diel'], lam, r['aoi'], 1e-9*r['tTi'], 1e-9*mp.t_metal_nm_vec,
            1e-9*mp.t_diel_nm_vec, lam*r['d0'], 2)[1 if r['refl'] else 0] for lam in lams]
        res.append(np.moveaxis(np.array(t), 0, 2))
    return res


def process(arg):
    import falco
    me, reqs = arg
    got = []
    try:
        for r in reqs:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got.append(falco.thinfilm.gen_complex_trans_table(
                        model(falco, r), flagRefl=r['refl']))
            except OSError as e:
                got.append(repr(e))
    except F.SimCrash:
        got.append('died')
    return got


def yielder(n):
    s, t = S._task()
    if s is not None and t is not None:
        s.yield_(hot=True)


def relocate(falco, root):
    """Let the package believe that it is installed under root."""
    old = os.path.dirname(os.path.dirname(os.path.abspath(falco.__file__)))
    os.makedirs(root + '/data/material')
    os.makedirs(root + '/falco/data')
    for f in os.listdir(old + '/falco/data'):
        if f not in ('brief', 'ws', 'jac', 'config', 'material'):
            os.symlink(old + '/falco/data/' + f, root + '/falco/data/' + f)
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'falco' and getattr(m, '__file__', None):
            p = os.path.abspath(m.__file__)
            if p.startswith(old + os.sep):
                m.__file__ = root + p[len(old):]


def run(cfg, ctx):
    import falco
    import multiprocessing
    root = os.path.join(ctx.scratch, 'inst')
    relocate(falco, root)
    refs = [oracle(falco, r) for r in cfg['reqs']]

    def master():
        args = [(k, [cfg['reqs'][i] for i in p]) for k, p in enumerate(cfg['procs'])]
        if len(args) == 1:
            return [process(args[0])]
        pool = multiprocessing.Pool(len(args))
        r = pool.map(process, args, chunksize=1)
        pool.close()
        pool.join()
        return r

    def go(fs):
        fs.watch = yielder
        with fs:
            return ctx.sim(master, max_steps=2000000)

    def check(res, fs):
        fired = fs.fired and fs.fired[0]
        for p, got in enumerate(res):
            for k, g in enumerate(got):
                if isinstance(g, str):
                    if g == 'died' and fired in ('worker', 'crash', 'power') or \
                            fired in ('enospc', 'eio'):
                        continue
                    ctx.fail('failed', g)
                for a, b, what in zip(g, refs[cfg['procs'][p][k]], ('compact', 'full')):
                    ctx.close(a, b, 'wrong-table', '%s table, process %d request %d' % (
                        what, p, k))
                    ctx.digest(np.asarray(a))

    def clean():
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.islink(p):
                    os.remove(p)
    fs = F.FaultyFS(root)
    check(go(fs), fs)
    if cfg['fault'] and fs.n:
        kind, frac, seed = cfg['fault']
        clean()
        fs = F.FaultyFS(root, at=F.pick(frac, fs.n), kind=kind, seed=seed)
        r = None
        try:
            r = go(fs)
        except (S.SimDeadlock, F.SimCrash):
            if not fs.fired or fs.kind not in ('worker', 'crash', 'power'):
                raise
        if fs.fired:
            ctx.fault('%s at %s' % fs.fired)
        if fs.kind == 'power' and fs.fired:
            fs.power_loss()
        if r is not None:
            check(r, fs)
    # again, with the tables that are there now
    fs = F.FaultyFS(root)
    check(go(fs), fs)
    n = sum(len(f) for _, _, f in os.walk(root + '/data'))
    ctx.stat('tables', n)
    if len(cfg['procs']) > 1:
        ctx.nontrivial = True
