"""Actuator constraints hold after every iteration, also an interrupted one."""
import numpy as np
from props import common as C
import faults as F

ID = 'C14'
QUICK = 360
RULE = ('a run counts when a trial with at least one actuator constraint or voltage '
        'limit was checked; distinct by (configuration, fault position)')
REAL = 'falco.wfsc.loop, falco.ctrl, falco.est, falco.imaging, falco.model, falco.dm'
STUB = 'the camera is the simulated full model; injected failures of images'


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 3),
                         coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'))
    m['initV'] = rng.choice([0., 5., 20., 40.])
    m['initSeed'] = rng.randrange(1000)
    m['Nsbp'] = 1 if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = 1
    if rng.random() < 0.5:
        m['Vmax'] = rng.choice([20., 60., 100.])
    m.update(C.gen_constraints(rng, 0.85))
    if rng.random() < 0.3:
        m['estimator'] = rng.choice(['pairwise', 'pairwise-rect'])
        m['probeDM'] = rng.choice([1, 2])
    cfg = {'model': m, 'par': rng.random() < 0.15, 'fault': None}
    if rng.random() < 0.4:
        cfg['fault'] = {'at': rng.random()}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'fault': None})


KEYS = ('tied1', 'tied2', 'dead1', 'dead2', 'pinned1', 'pinned2')


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, out = C.build(ctx, m, parallel=cfg['par'])
    ctx.nontrivial = any(k in m for k in KEYS) or 'Vmax' in m
    bias = {k: np.broadcast_to(getattr(mp, 'dm%d' % k).biasMap, getattr(mp, 'dm%d' % k).V.shape)
            .copy() for k in (1, 2)}
    lim = {k: (getattr(mp, 'dm%d' % k).Vmin, getattr(mp, 'dm%d' % k).Vmax)
           for k in (1, 2)}
    exc = None
    targets = [(falco.imaging, 'get_sbp_image')]

    def go():
        if cfg['par']:
            ctx.sim(lambda: falco.wfsc.loop(mp, out))
        else:
            falco.wfsc.loop(mp, out)
    done = mp.Nitr
    if cfg['fault']:
        exc = OSError('injected')
        with F.Calls(targets, 1 + int(cfg['fault']['at']*30), exc) as c:
            try:
                go()
            except OSError:
                pass
        if c.fired:
            ctx.fault('failing image')
            done = int(out.Itr)     # completed iterations
    else:
        go()
    seq = {k: [getattr(out, 'dm%d' % k).Vall[:, :, it] for it in range(done + 1)]
           for k in (1, 2)}
    ctx.digest(seq[1][-1], seq[2][-1])
    rows = []
    for r in m.get('sched') or []:
        rows += [str(r[2])]*r[0]
    for it in range(done):
        dms = [int(c) for c in rows[it]] if rows else m.get('dm_ind', [1, 2])
        for k in (1, 2):
            V = seq[k][it + 1] if it + 1 < len(seq[k]) else None
            if V is None or (cfg['fault'] and it + 1 == done and
                             not np.any(V) and np.any(seq[k][it])):
                continue        # not recorded yet when the trial was cut
            what = 'DM%d after iteration %d' % (k, it)
            if k in dms:
                check(ctx, m, k, V, bias[k], lim[k], what)
            elif it > 0:
                ctx.close(V, seq[k][it], 'unused-dm-moved', what, atol=1e-9)
    if not (cfg['fault'] and c.fired):
        for k in (1, 2):
            ctx.close(getattr(mp, 'dm%d' % k).V, seq[k][-1], 'final-command',
                      'DM%d' % k, atol=1e-9)


def check(ctx, m, k, V, bias, lim, what):
    v = V.ravel()
    pinned = {a: x for a, x in m.get('pinned%d' % k, [])}
    for a in m.get('dead%d' % k, []):
        ctx.close(v[a], 0., 'dead-actuator-moved', '%s: actuator %d' % (what, a),
                  atol=1e-9)
    for a, x in pinned.items():
        ctx.close(v[a], x, 'pinned-actuator-moved', '%s: actuator %d' % (what, a),
                  atol=1e-9)
    for a, b in m.get('tied%d' % k, []):
        ctx.close(v[b], v[a], 'tied-actuators-differ', '%s: %d and %d' % (what, a, b),
                  atol=1e-9)
    t = (V + bias).ravel()
    if m.get('bias'):   # the tie comes last: equal commands, not equal totals
        t = np.delete(t, [b for a, b in m.get('tied%d' % k, [])])
    if np.min(t) < lim[0] - 1e-6 or np.max(t) > lim[1] + 1e-6:
        ctx.fail('voltage-limit', '%s: total voltages from %g to %g, limits %g %g'
                 % (what, np.min(t), np.max(t), lim[0], lim[1]))
    ctx.evals += 1
