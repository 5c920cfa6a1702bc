"""A control step does not use up its inputs: Jacobian and estimate can be reused."""
import copy
import numpy as np
from props import common as C
import faults as F

ID = 'C28'
QUICK = 220
RULE = ('a run counts when the control step was repeated from the same inputs; '
        'distinct by (configuration, fault position, schedule hash)')
REAL = 'falco.ctrl, falco.imaging, falco.model, falco.dm'
STUB = 'OS threads and worker processes simulated; injected failures'


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1,),
                         coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'))
    m['initV'] = rng.choice([5., 20.])
    m['initSeed'] = rng.randrange(1000)
    if rng.random() < 0.7:
        m['Wspatial'] = [[rng.choice([1.5, 2., 3.]), rng.choice([3.5, 4.]),
                          rng.choice([0., 0.2, 3.])]]
        if m['Wspatial'][0][2] == 0.:   # something is left to control
            m['Wspatial'][0][0] = 3.
    if rng.random() < 0.25:
        m['zerns'] = [1, 2]
    elif rng.random() < 0.25 and m['coro'] != 'HLC' and not m['useModel']:
        m['stars'] = 2
    if rng.random() < 0.3:
        m['minimizeNI'] = True
    cfg = {'model': m, 'par': rng.random() < 0.3, 'n': rng.choice([2, 2, 3]),
           'fault': rng.random() if rng.random() < 0.4 else None}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'n': 2, 'fault': None})


def run(cfg, ctx):
    import falco
    mp, _ = C.build(ctx, cfg['model'])
    cvar, ev, jac = C.prepare(falco, mp)
    falco.est.wrapper(mp, ev, jac)
    mp.flagParallel = cfg['par']
    G = {k: np.array(v) for k, v in vars(jac).items() if isinstance(v, np.ndarray)}
    E = np.array(ev.Eest)
    V0 = {k: getattr(mp, 'dm%d' % k).V.copy() for k in (1, 2)}
    ref = None

    def step():
        for k in V0:
            getattr(mp, 'dm%d' % k).V = V0[k].copy()
        if cfg['par']:
            ctx.sim(lambda: C.control(falco, mp, cvar, ev, copy.copy(jac)))
        else:
            C.control(falco, mp, cvar, ev, copy.copy(jac))

    for r in range(cfg['n']):
        if r == 1 and cfg['fault'] is not None and not cfg['par']:
            exc = OSError('injected')
            with F.Calls([(falco.imaging, 'get_summed_image'),
                          (falco.imaging, 'get_expected_summed_image')],
                         1 + int(cfg['fault']*4), exc) as c:
                try:
                    step()
                except OSError:
                    pass
            if c.fired:
                ctx.fault('failing image')
            inputs(ctx, G, E, jac, ev, 'after a failed step')
        step()
        inputs(ctx, G, E, jac, ev, 'after step %d' % r)
        got = {k: getattr(mp, 'dm%d' % k).V.copy() for k in V0}
        if ref is None:
            ref, vec = got, np.sort(np.ravel(getattr(cvar, 'InormVec', [])))
        elif vec.size < 2 or vec[1] - vec[0] > 1e-5*abs(vec[-1]):
            ctx.nontrivial = True
            for k in V0:
                ctx.close(got[k], ref[k], 'repeated-step-differs',
                          'DM%d, step %d' % (k, r), rtol=1e-6,
                          atol=1e-8*(1 + np.max(np.abs(ref[k]))))
    ctx.digest(ref[1], ref[2])


def inputs(ctx, G, E, jac, ev, what):
    for k, v in G.items():
        ctx.close(getattr(jac, k), v, 'control-changed-jacobian', '%s: %s' % (what, k),
                  rtol=1e-10)
    ctx.close(ev.Eest, E, 'control-changed-estimate', what, rtol=1e-10)
