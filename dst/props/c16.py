"""A trial can be continued from its data snippet after a crash."""
import copy
import os
import pickle

import numpy as np

from props import common as C
import faults as F

ID = 'C16'
QUICK = 150
RULE = ('a run counts when a trial was interrupted after its first save and '
        'continued from the snippet; distinct by (configuration, crash point)')
REAL = 'falco.wfsc.loop and everything below it, falco.setup, pickle'
STUB = ('simulated disk below the Python file API; process death is an exception '
        'after which nothing of the process is used again')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(2, 3, 4), coros=('LC', 'APLC', 'FLC', 'SPLC',
                                                    'vortex', 'HLC'))
    m.pop('relin', None)            # a restart linearizes again
    m['logGmin'] = -30.             # and culls again
    m['Vmax'] = 1e5                 # railed actuators are not in the snippet
    m['initV'] = rng.choice([5., 20.])
    m['initSeed'] = rng.randrange(1000)
    if m['controller'] == 'plannedEFC':
        rows = []
        for k in range(m['Nitr']):
            reg = rng.choice([[0., 1.], [-1., 1.], [-3., 0.]])
            rows.append([1, reg, rng.choice([12, 12, 1, 2]), 1, 1])
        m['sched'] = rows
    if rng.random() < 0.3:
        m['estimator'] = 'pairwise-rect'
    elif rng.random() < 0.3:
        m['zerns'] = [1, 3]
    if rng.random() < 0.3:
        m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
    if rng.random() < 0.3:
        for n in (1, 2):
            m['tied%d' % n] = [[5, 11], [11, 20]]
            m['dead%d' % n] = [14]
    cfg = {'model': m, 'yaml': rng.random() < 0.2, 'par': rng.random() < 0.15,
           'kind': rng.choice(['kill', 'kill', 'crash', 'power']),
           'frac': rng.random(), 'fseed': rng.randrange(1 << 30),
           'times': rng.choice([1, 1, 2])}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'yaml': False, 'par': False, 'times': 1,
                                   'kind': 'kill'})


def rest(m, k, V):
    """The configuration of the rest of the trial."""
    m = dict(m, Nitr=m['Nitr'] - k)
    if m['controller'] == 'plannedEFC':
        m['sched'] = m['sched'][k:]
    return m


def run(cfg, ctx):
    import falco
    kw = dict(yaml=cfg['yaml'], parallel=cfg['par'])
    go = ctx.sim if cfg['par'] else (lambda fn: fn())
    mp, out = C.build(ctx, cfg['model'], 'ref', **kw)
    targets = [(falco.imaging, 'calc_psf_norm_factor'), (falco.est, 'wrapper'),
               (falco.model, 'jacobian'), (falco.ctrl, 'wrapper'),
               (falco.imaging, 'calc_thput')]
    d = mp.path.brief
    fs = F.FaultyFS(d)
    count = F.Calls(targets)
    with fs, count:
        go(lambda: falco.wfsc.loop(mp, out))
    ref = C.histories(out)
    ctx.digest(ref['InormHist'], ref['dm1.Vall'])
    if mp.dm1.pinned.size or mp.dm2.pinned.size:
        ctx.stat('railed')
        return
    N = cfg['model']['Nitr']
    model = cfg['model']
    done = 0            # iterations of the reference before the current start
    V = None
    for t in range(cfg['times'] + 1):
        sub = 'try%d' % t
        m, o = C.build(ctx, model, sub, **kw)
        if V is not None:
            m.dm1.V, m.dm2.V = V[0].copy(), V[1].copy()
        last = t == cfg['times']
        fn = os.path.join(m.path.brief, 'sim_trial_snippet.pkl')
        try:
            if last:
                go(lambda: falco.wfsc.loop(m, o))
            elif cfg['kind'] == 'kill':
                n1 = max(1, int(count.n*(N - done)/N))
                ctl = F.Calls(targets, F.pick(cfg['frac'], n1), F.SimCrash('killed'))
                with ctl:
                    go(lambda: falco.wfsc.loop(m, o))
            else:
                n1 = max(1, int(fs.n*(N - done)/N))
                f = F.FaultyFS(m.path.brief, at=F.pick(cfg['frac'], n1),
                               kind=cfg['kind'], seed=cfg['fseed'])
                try:
                    with f:
                        go(lambda: falco.wfsc.loop(m, o))
                finally:
                    if cfg['kind'] == 'power':
                        f.power_loss()
        except F.SimCrash:
            ctx.fault('death of the process (%s)' % cfg['kind'])
        h = None
        if os.path.exists(fn):
            with open(fn, 'rb') as g:
                h = pickle.load(g)
        if h is None:
            ctx.stat('died before the first save')
            V0 = V
            if last:
                ctx.fail('no-snippet', 'complete trial left no snippet')
            ctx.key('none', t)
            continue
        # everything the snippet holds agrees with the uninterrupted trial
        got = C.histories(h)
        k = int(got['Itr']) + 1     # iterations in this snippet
        complete = last or int(np.size(got['InormHist'])) - 1 == k and \
            np.any(got['dm1.Vall'][:, :, k] != 0) | np.any(got['dm2.Vall'][:, :, k] != 0)
        compare(ctx, got, ref, done, k, t)
        ctx.key('resumed', done, k, cfg['kind'])
        if last or done + k >= N and complete:
            break
        # resume at the last recorded command; its iteration is repeated
        r = k - 1
        V = (got['dm1.Vall'][:, :, r], got['dm2.Vall'][:, :, r])
        model = rest(model, r, V)
        done += r
        ctx.nontrivial = True
    ctx.stat('iterations', N)


def compare(ctx, got, ref, done, k, t):
    for name in ('InormHist', 'IrawScoreHist', 'log10regHist', 'IestCorrHist',
                 'IincoScoreHist', 'thput', 'dm1.Vpv', 'dm2.Vpv', 'dm1.Srms',
                 'dm2.Spv', 'normIntMeasCorr', 'normIntModScore'):
        ctx.close(got[name][:k], ref[name][done:done + k], 'resumed:' + name,
                  '%s of iterations %d..%d (attempt %d)' % (name, done, done + k - 1, t),
                  rtol=1e-6, atol=1e-12)
    for name in ('dm1.Vall', 'dm2.Vall'):
        ctx.close(got[name][:, :, :k], ref[name][:, :, done:done + k],
                  'resumed:' + name, '%s before iterations %d..%d (attempt %d)'
                  % (name, done, done + k - 1, t), rtol=1e-6, atol=1e-9)
    if 'Zsens' in ref and ref['Zsens'].size:
        ctx.close(got['Zsens'][:, :, :k], ref['Zsens'][:, :, done:done + k],
                  'resumed:Zsens', 'attempt %d' % t, rtol=1e-6)
