"""Estimation leaves the DM commands and the DM selection as it found them."""
import copy
import numpy as np
from props import common as C
import faults as F

ID = 'C09'
QUICK = 200
RULE = ('a run counts when a fault was injected into an acquisition, or an '
        'interleaved acquisition with at least two switches was run; distinct by '
        '(configuration, fault position, schedule hash)')
REAL = 'falco.est, falco.imaging, falco.model, falco.dm'
STUB = ('the testbed camera (public seam get_testbed_sbp_image) is the simulated '
        'full model with injected failures')

EXC = {'runtime': RuntimeError, 'os': OSError, 'kbd': KeyboardInterrupt,
       'timeout': TimeoutError, 'value': ValueError}


def gen(rng, i):
    m = C.gen_model(rng, coros=['LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'])
    m['fov'] = 4.
    m['Nsbp'] = rng.choice([1, 2]) if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = rng.choice([1, 2])
    m['estimator'] = rng.choice(['pairwise', 'pairwise', 'pairwise-rect',
                                 'pwp-bp', 'pwp-bp-square', 'perfect'])
    m['probeDM'] = rng.choice([1, 2])
    m['probeAxis'] = rng.choice(['x', 'y', 'alternate'])
    m['Npairs'] = rng.choice([2, 2, 3])
    m['initV'] = rng.choice([0., 5., 20.])
    m['initSeed'] = rng.randrange(1000)
    m.update(C.gen_constraints(rng))
    if m['coro'] != 'HLC' and m['estimator'] == 'pairwise-rect' \
            and rng.random() < 0.2:
        m['stars'] = 2
    dms = m.get('dm_ind', [1, 2])
    if m['estimator'] != 'perfect' and m['probeDM'] in dms and rng.random() < 0.2:
        m['flagUseJac'] = True
    if m.get('stars', 1) > 1:
        m['estimator'] = 'perfect'
    cfg = {'model': m, 'Itr': rng.randrange(2),
           'par': rng.random() < 0.3, 'testbed': rng.random() < 0.5,
           'rounds': rng.choice([1, 2, 3]), 'fault': None}
    if rng.random() < 0.75:
        cfg['fault'] = {
            'what': rng.choice(['image', 'image', 'image', 'model', 'surface', 'pinv']),
            'at': rng.random(), 'exc': rng.choice(sorted(EXC)),
            'after': rng.random() < 0.4}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'rounds': 1, 'par': False, 'testbed': False,
                                   'Itr': 0})
    if cfg.get('fault'):
        yield dict(cfg, fault=dict(cfg['fault'], exc='runtime', after=False))


def targets(falco, what):
    return {'image': [(falco.imaging, 'get_sbp_image')],
            'model': [(falco.model, 'compact'), (falco.model, 'full')],
            'surface': [(falco.dm, 'gen_surf_from_act')],
            'pinv': [(np.linalg, 'pinv')]}[what]


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, _ = C.build(ctx, m, parallel=cfg['par'])
    mp.Nitr = 5
    cvar, ev, jac = C.prepare(falco, mp)
    ev.Itr = cfg['Itr']
    if cfg['testbed']:
        C.install_camera(falco, mp, C.camera(falco))
    f = cfg['fault']

    def estimate(mp, ev):
        if cfg['par']:
            return ctx.sim(lambda: falco.est.wrapper(mp, ev, jac))
        return falco.est.wrapper(mp, ev, jac)

    # what an undisturbed acquisition gives
    mp0, ev0 = copy.deepcopy((mp, ev))
    if f:
        with F.Calls(targets(falco, f['what'])) as c:
            estimate(mp0, ev0)
        n = c.n
    else:
        estimate(mp0, ev0)
    ref = np.array(ev0.Eest)
    before = C.dm_state(mp)
    C.check_dm_state(ctx, before, mp0, 'acquisition-changed-dms', 'after estimation')
    for r in range(cfg['rounds']):
        if f and n and r == 0:
            exc = EXC[f['exc']]('injected')
            with F.Calls(targets(falco, f['what']), F.pick(f['at'], n), exc,
                         f['after']) as c:
                try:
                    estimate(mp, ev)
                    failed = False
                except BaseException as e:
                    if e is not exc and not isinstance(e, type(exc)):
                        raise
                    failed = True
            if c.fired:
                ctx.fault('failing ' + f['what'])
                if not failed:
                    ctx.fail('failure-swallowed', 'estimation went on after a '
                             'failed %s' % f['what'])
            what = 'after a failed acquisition'
        else:
            estimate(mp, ev)
            ctx.close(ev.Eest, ref, 'estimate-depends-on-earlier-acquisition',
                      'round %d' % r, rtol=1e-7)
            what = 'after acquisition %d' % r
        C.check_dm_state(ctx, before, mp, 'acquisition-changed-dms', what)
    ctx.digest(np.array(getattr(ev, "Eest", 0)))
