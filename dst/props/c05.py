"""The control step picks the same command in parallel as serially."""
import copy
import numpy as np
from props import common as C

ID = 'C05'
QUICK = 150
RULE = ('a run counts when at least two context switches happened inside the '
        'control step; distinct by (configuration, schedule hash)')
REAL = 'falco.ctrl, falco.imaging, falco.model, falco.dm; concurrent.futures executors'
STUB = ('OS threads serialised by the seeded scheduler; worker processes simulated '
        'with their own module state and pickled arguments')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2))
    if rng.random() < 0.7:
        m['useModel'] = True
        if m.get('layout') != 'proper' and rng.random() < 0.7:
            m['controller'] = 'gridsearchEFC'
            m.pop('sched', None)
    if rng.random() < 0.25:
        m['zerns'] = [1, 2]
        m['useModel'] = m['useModel'] and m.get('layout') != 'proper'
    if len(m['log10reg'])*len(m.get('dmfac', [1])) < 2:
        m['log10reg'] = [-4., -3., -2.]
    return {'model': m, 'sched': C.sched(rng)}


def shrink(cfg):
    yield from C.shrink_std(cfg)


def outcome(mp, cvar):
    o = {'Inorm': np.array(getattr(cvar, 'InormVec', [cvar.cMin])),
         'reg': cvar.log10regUsed, 'cMin': cvar.cMin, 'Im': np.array(cvar.Im)}
    for k in (1, 2):
        if any(mp.dm_ind == k):
            o['V%d' % k] = getattr(mp, 'dm%d' % k).V.copy()
            o['dV%d' % k] = getattr(mp, 'dm%d' % k).dV.copy()
    return o


def run(cfg, ctx):
    import falco
    mp, _ = C.build(ctx, cfg['model'])
    cvar, ev, jac = C.prepare(falco, mp)
    falco.est.wrapper(mp, ev, jac)
    mp2, cvar2, ev2, jac2 = copy.deepcopy((mp, cvar, ev, jac))
    C.control(falco, mp2, cvar2, ev2, jac2)
    ref = outcome(mp2, cvar2)
    mp.flagParallel = True
    ctx.sim(lambda: C.control(falco, mp, cvar, ev, jac))
    got = outcome(mp, cvar)
    s = np.sort(ref['Inorm'].ravel())
    ctx.digest(got['Inorm'])
    ctx.close(got['Inorm'], ref['Inorm'], 'grid-search-intensities-differ', rtol=1e-6)
    if s.size > 1 and s[1] - s[0] < 1e-5*s[-1]:
        ctx.stat('near_ties')
        return
    ctx.same(got['reg'], ref['reg'], 'chosen-regularization-differs')
    for k in sorted(ref):
        if k in ('Inorm', 'reg'):
            continue
        ctx.close(got[k], ref[k], 'parallel-control-differs:' + k, k, rtol=1e-6)
