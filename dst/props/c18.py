"""A Jacobian computed by separate processes is the one computed in one go."""
import glob
import os
import pickle

import numpy as np

from props import common as C
import faults as F
import sim as S

ID = 'C18'
QUICK = 150
RULE = ('a run counts when several workers wrote slices and at least one worker '
        'switch happened; distinct by (configuration, schedule, faults)')
REAL = ('falco.model.write_jac_slices, reassemble_jac_from_slices, jacobians, '
        'pickle, numpy file format')
STUB = ('worker processes are simulated (own module state, scheduler-controlled '
        'interleaving); simulated disk below the Python file API')


def gen(rng, i):
    m = C.gen_model(rng, coros=['LC', 'APLC', 'FLC', 'SPLC', 'HLC', 'vortex'])
    m['Nsbp'] = rng.choice([1, 1, 2])
    if m['coro'] == 'HLC':
        m['Nsbp'] = 2
    m['Nwpsbp'] = 1
    m['Nact'] = 4
    if rng.random() < 0.3:
        m['zerns'] = [1, 2]
    if rng.random() < 0.3:
        m['logGmin'] = rng.choice([-1., -0.5])
    if rng.random() < 0.3:
        m['tied1'] = [[1, 4], [4, 9]]
        m['tied2'] = [[2, 7]]
    if rng.random() < 0.2:
        m['dead1'] = [6]
    r = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        r.append([rng.choice(['worker', 'worker', 'crash', 'power', 'enospc', 'eio']),
                  rng.random(), rng.randrange(1 << 30)])
    cfg = {'model': m, 'workers': rng.choice([2, 3, 4]),
           'batch': rng.choice([1, 3, 1000]), 'rounds': r,
           'twice': rng.choice([0., 0., 0.2]), 'again': rng.random() < 0.3,
           'order': rng.randrange(1 << 30), 'sched': C.sched(rng),
           'cull': rng.random() < 0.5,
           'stale': rng.random() < 0.4, 'lost': rng.random()}
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    for k in range(len(cfg['rounds'])):
        yield dict(cfg, rounds=cfg['rounds'][:k] + cfg['rounds'][k+1:])
    yield from C.shrink_keys(cfg, {'twice': 0., 'again': False, 'stale': False, 'cull': False, 'batch': 1,
                                   'workers': 2})


def work(fn, combos, batch):
    import falco
    calls = [combos[k:k + batch] for k in range(0, len(combos), batch)]
    for c in calls:
        try:
            falco.model.write_jac_slices(fn, [list(x) for x in c])
        except F.SimCrash:
            return 'died'
        except OSError as e:
            return repr(e)
    return 'done'


def yielder(n):
    s, t = S._task()
    if s is not None and t is not None:
        s.yield_(hot=True)


def run(cfg, ctx):
    import falco
    import multiprocessing
    import random
    rng = random.Random(cfg['order'])
    mp, out = C.build(ctx, cfg['model'])
    falco.imaging.calc_psf_norm_factor(mp)
    falco.setup.falco_set_jacobian_modal_weights(mp)
    jac = falco.model.jacobian(mp)
    if cfg['cull']:
        cv = falco.config.Object()
        cv.Itr, cv.flagRelin = 0, True
        falco.ctrl.cull_weak_actuators(mp, cv, jac)
        jac = falco.model.jacobian(mp)
    dms = [k for k in (1, 2) if k in [int(x) for x in mp.dm_ind]]
    ref = {k: getattr(jac, 'G%d' % k).copy() for k in dms}
    fn = os.path.join(mp.path.jac, 'mp.pkl')
    with open(fn, 'wb') as f:
        pickle.dump(mp, f)
    combos = [(im, k, int(a)) for im in range(mp.jac.Nmode) for k in dms
              for a in getattr(mp, 'dm%d' % k).act_ele]

    def name(c):
        return os.path.join(mp.path.jac, 'jac_mode%d_dm%d_act%d.npy' % c)

    def round_(todo, fs):
        todo = list(todo)
        todo += [c for c in todo if rng.random() < cfg['twice']]
        rng.shuffle(todo)
        parts = [todo[k::cfg['workers']] for k in range(cfg['workers'])]

        def master():
            pool = multiprocessing.Pool(cfg['workers'])
            r = pool.starmap(work, [(fn, p, cfg['batch']) for p in parts if p], chunksize=1)
            pool.close()
            pool.join()
            return r
        fs.watch = yielder
        with fs:
            return ctx.sim(master, max_steps=2000000)

    faults = list(cfg['rounds'])
    todo = combos
    if cfg['stale'] and (cfg['again'] or not faults):
        # the slices of an earlier linearization are still there
        for c in combos:
            np.save(name(c), ref[c[1]][:, 0, 0] + 1.)
    n = 2*len(combos)
    for kind, frac, seed in faults:
        fs = F.FaultyFS(mp.path.jac, at=F.pick(frac, n), kind=kind, seed=seed)
        r = round_(todo, fs)
        if kind == 'power' and fs.fired:
            fs.power_loss()
        if fs.fired:
            ctx.fault('%s at %s' % fs.fired)
            if fs.fired[1] != 'remove' and all(x == 'done' for x in r):
                ctx.fail('failure-swallowed', '%s at %s' % fs.fired)
        elif any(x != 'done' for x in r):
            ctx.fail('worker-failed', repr(r))
        # a slice that is there is complete
        for c in combos:
            if os.path.exists(name(c)):
                try:
                    v = np.load(name(c))
                except Exception as e:
                    ctx.fail('slice-torn', '%r after %s: %r' % (c, fs.fired, e))
                if v.shape != (mp.Fend.corr.Npix,):
                    ctx.fail('slice-torn', '%r has shape %r' % (c, v.shape))
        if not cfg['again']:
            todo = [c for c in combos if not os.path.exists(name(c))]
        ctx.key(kind, len(todo))
    fs = F.FaultyFS(mp.path.jac)
    if todo:
        r = round_(todo, fs)
        if any(x != 'done' for x in r):
            ctx.fail('worker-failed', repr(r))
    got = falco.model.reassemble_jac_from_slices(mp)
    for k in dms:
        G = getattr(got, 'G%d' % k)
        ctx.close(G, ref[k], 'jacobian', 'DM%d' % k)
        ctx.digest(G)
    # a slice that is missing is not left out without a word
    lost = combos[F.pick(cfg['lost'], len(combos)) - 1]
    os.remove(name(lost))
    try:
        falco.model.reassemble_jac_from_slices(mp)
    except OSError:
        pass
    else:
        ctx.fail('missing-slice', repr(lost))
    ctx.evals += 1
    ctx.stat('slices', len(combos))
