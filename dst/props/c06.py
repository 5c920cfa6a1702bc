"""A whole wavefront-control trial gives the same history in parallel."""
import copy
import numpy as np
from props import common as C

ID = 'C06'
QUICK = 70
RULE = ('a run counts when at least two context switches happened during the '
        'trial; distinct by (configuration, schedule hash)')
REAL = ('falco.wfsc.loop and everything below it: estimation, Jacobian, control, '
        'imaging, sensitivities, snippet files')
STUB = ('OS threads serialised by the seeded scheduler; worker processes simulated; '
        'the camera is the simulated full model')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 2))
    if rng.random() < 0.3:
        m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
    if rng.random() < 0.25:
        m['zerns'] = [1, 2]
    if m.get('layout') != 'proper' and m['coro'] != 'HLC' and rng.random() < 0.3 \
            and m.get('zerns') is None and not m['useModel']:
        m['stars'] = 2
    if rng.random() < 0.35 and not m.get('zerns'):
        m['estimator'] = rng.choice(['pairwise', 'pairwise-rect']) \
            if not m.get('stars') else 'perfect'
        m['Nwpsbp'] = 1
        if m['estimator'] != 'perfect':
            m['flagUseJac'] = rng.random() < 0.3 and probe_controlled(m)
    if m['coro'] != 'proper' and m.get('layout') != 'proper' \
            and not m.get('zerns') and rng.random() < 0.12:
        C.gen_ad(rng, m)
        m['flagUseJac'] = False
    return {'model': m, 'sched': C.sched(rng)}


def probe_controlled(m):
    if m.get('sched'):
        return all('1' in str(r[2]) for r in m['sched'])
    return 1 in m.get('dm_ind', [1, 2])


def shrink(cfg):
    yield from C.shrink_std(cfg)


def run(cfg, ctx):
    import falco
    mp, out = C.build(ctx, cfg['model'])
    C.setup_ad(falco, mp)
    mp2, out2 = copy.deepcopy((mp, out))
    near = []
    orig = falco.ctrl.wrapper

    def spy(mp_, cvar, jac):
        r = orig(mp_, cvar, jac)
        v = np.sort(np.ravel(getattr(cvar, 'InormVec', [])))
        if v.size > 1 and v[1] - v[0] < 1e-5*v[-1]:
            near.append(1)
        return r
    falco.ctrl.wrapper = spy
    try:
        falco.wfsc.loop(mp2, out2)
    finally:
        falco.ctrl.wrapper = orig
    mp.flagParallel = True
    ctx.sim(lambda: falco.wfsc.loop(mp, out))
    got, ref = C.histories(out), C.histories(out2)
    ctx.digest(got['InormHist'], got['dm1.Vall'], got['dm2.Vall'])
    if near:
        ctx.stat('near_ties')
        return
    C.compare_histories(ctx, got, ref, 'trial-differs')
    for k in (1, 2):
        ctx.close(getattr(mp, 'dm%d' % k).V, getattr(mp2, 'dm%d' % k).V,
                  'final-command-differs', 'DM%d' % k, rtol=1e-6)
