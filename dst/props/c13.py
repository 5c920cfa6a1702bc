"""A trial follows its schedule: refinement of a small reference loop."""
import copy
import numpy as np
from props import common as C
import refloop

ID = 'C13'
QUICK = 140
RULE = ('a run counts when a whole trial of at least one iteration was compared '
        'with the reference loop; distinct by (configuration, schedule hash)')
REAL = 'falco.wfsc.loop, falco.ctrl, falco.est, falco.imaging, falco.model, falco.dm'
STUB = ('the testbed camera (public seam get_testbed_sbp_image) is the simulated '
        'full model plus unmodelled light; OS threads serialised by the scheduler')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 3, 3, 4))
    if m.get('layout') == 'proper':
        m['Nitr'] = min(m['Nitr'], 2)
        if m['controller'] == 'plannedEFC':
            m['sched'] = C.gen_sched(rng, m['Nitr'])
        if m.get('relin'):
            m['relin'] = [k for k in m['relin'] if k < m['Nitr']]
    m['initV'] = rng.choice([10., 20., 40.])
    m['initSeed'] = rng.randrange(1000)
    m.update(C.gen_constraints(rng, 0.3))
    if rng.random() < 0.2:
        m['Vmax'] = rng.choice([60., 80.])
    if rng.random() < 0.3:
        m['zerns'] = [1, 2]
    if rng.random() < 0.3 and m.get('layout') != 'proper':
        m['Wspatial'] = [[2., 3., rng.choice([0.2, 3.])]]
    if rng.random() < 0.3 and not m.get('zerns') and m.get('layout') != 'proper':
        m['estimator'] = rng.choice(['pairwise', 'pairwise-rect'])
        m['Nwpsbp'] = 1
    if m['coro'] != 'HLC' and m.get('layout') != 'proper' and rng.random() < 0.2:
        m['stars'] = rng.choice([2, 2, 3])
        m['jacstars'] = rng.choice([[1., 0.5, 2.], [1., 1., 1.], [0.3, 1., 1.]])
        if 'estimator' in m:
            m['estimator'] = 'pairwise-rect'
    cfg = {'model': m, 'par': rng.random() < 0.15, 'light': 0.}
    if m.get('layout') != 'proper' and m.get('estimator') and rng.random() < 0.6:
        cfg['light'] = rng.choice([0.1, 1.])
        cfg['lseed'] = rng.randrange(1000)
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'light': 0.})


def run(cfg, ctx):
    import falco
    mp, out = C.build(ctx, cfg['model'], parallel=cfg['par'])
    ref = copy.deepcopy(mp)
    ref.flagParallel = False
    if cfg['light']:
        take = C.camera(falco)
        rng = np.random.RandomState(cfg['lseed'])
        bg = {}
        for s in range(mp.Nsbp):
            bg[s] = np.abs(rng.randn(mp.Fend.Neta, mp.Fend.Nxi))
        unit = []

        def cam(mp_, si):
            im = take(mp_, si)
            if not unit:
                unit.append(cfg['light']*np.mean(im))
            return im + unit[0]*bg[int(si)]
        C.install_camera(falco, mp, cam)
        ref.flagSim = False
        cam(ref, 0)     # the same unit of light in both
    if cfg['par']:
        ctx.sim(lambda: falco.wfsc.loop(mp, out))
    else:
        falco.wfsc.loop(mp, out)
    near = []
    h = refloop.trial(falco, ref, near=near, rows=cfg['model'].get('sched'))
    ctx.nontrivial = True
    ctx.digest(np.array(out.InormHist))
    if near:
        ctx.stat('near_ties')
        return
    n = mp.Nitr
    dev = {}
    for it in range(n + 1):
        if it < n:
            ctx.close(out.InormHist[it], h['Inorm'][it], 'intensity-history',
                      'iteration %d' % it, rtol=1e-4)
            ctx.close(out.log10regHist[it], h['reg'][it], 'regularization-history',
                      'iteration %d' % it, atol=1e-9)
        for k in (1, 2):
            V = h['V%d' % k][it]
            ctx.close(getattr(out, 'dm%d' % k).Vall[:, :, it], V,
                      'command-history', 'DM%d before iteration %d' % (k, it),
                      rtol=1e-5, atol=1e-5*(1 + np.max(np.abs(V))))
    for k in (1, 2):
        ctx.close(getattr(mp, 'dm%d' % k).V, h['V%d' % k][n], 'final-command',
                  'DM%d' % k, rtol=1e-5, atol=1e-5)
    ctx.stat('iterations', n)
