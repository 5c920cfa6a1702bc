"""A seeded trial is repeated exactly, whatever the clock does."""
import copy

import numpy as np

from props import common as C
import faults as F

ID = 'C23'
QUICK = 80
RULE = ('a run counts when a trial was repeated with another clock, schedule or '
        'history; distinct by (configuration, clock, schedule)')
REAL = 'falco.wfsc.loop and everything below it, falco.imaging noise, falco.setup'
STUB = 'the clock is simulated and jumps; threads and worker processes are simulated'


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2), coros=('LC', 'APLC', 'FLC', 'SPLC',
                                                     'vortex', 'HLC', 'proper'),
                         controllers=('gridsearchEFC', 'plannedEFC'))
    noise = rng.random() < 0.6
    if noise:
        m['noise'] = True
    if rng.random() < 0.35:
        m['estimator'] = 'pairwise-rect'
    if not noise and rng.random() < 0.3:
        m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
    m.update(C.gen_constraints(rng, 0.3))
    par = (not noise or m['useModel']) and rng.random() < 0.4
    sched = C.sched(rng)
    if not par:
        sched['gran'] = 'none'
    return {'model': m, 'par': par, 'seed': rng.randrange(1 << 31),
            'jumps': [[rng.randrange(1, 30), rng.choice([-3600., 1e6, -1e-3, 86400., -1.7e9])]
                      for _ in range(rng.choice([0, 1, 3]))],
            'before': rng.choice(['nothing', 'trial', 'image', 'draws', 'failed']),
            'frac': rng.random(), 'sched': sched}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'jumps': [], 'before': 'nothing'})


def rng_state():
    s = np.random.get_state()
    return s[0], s[1].copy(), s[2], s[3], s[4]


def same_rng(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def trial(falco, mp, out, seed):
    np.random.seed(seed)
    before = rng_state()
    falco.wfsc.loop(mp, out)
    h = C.histories(out)
    for n in (1, 2):
        h['V%d' % n] = np.array(getattr(mp, 'dm%d' % n).V, dtype=float)
    return h, before, rng_state()


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, out = C.build(ctx, m, 'a', parallel=cfg['par'])
    first, before, after = ctx.sim(lambda: trial(falco, mp, out, cfg['seed']),
                                   max_steps=20000000)
    if not m.get('noise') and not same_rng(before, after):
        ctx.fail('random-state', 'a trial without noise used the random stream')
    # something else happens in the meantime
    if cfg['before'] in ('trial', 'failed'):
        mo, oo = C.build(ctx, m, 'o')
        calls = F.Calls([(falco.est, 'wrapper'), (falco.ctrl, 'wrapper'),
                         (falco.imaging, 'get_summed_image')],
                        at=F.pick(cfg['frac'], 4) if cfg['before'] == 'failed' else None)
        with calls:
            try:
                ctx.sim(lambda: trial(falco, mo, oo, cfg['seed'] + 1), max_steps=20000000)
            except F.InjectedFault:
                ctx.fault('failed trial before')
    elif cfg['before'] == 'image':
        mo, oo = C.build(ctx, m, 'o')
        ctx.sim(lambda: falco.imaging.get_summed_image(mo))
    elif cfg['before'] == 'draws':
        np.random.poisson(3., 17)
    # again, in another directory, with another clock and schedule
    mp, out = C.build(ctx, m, 'b', parallel=cfg['par'])
    second, _, after2 = ctx.sim(lambda: trial(falco, mp, out, cfg['seed']),
                                max_steps=20000000,
                                clock_jumps={a: b for a, b in cfg['jumps']})
    if cfg['jumps']:
        ctx.fault('clock jump', len(cfg['jumps']))
    C.compare_histories(ctx, second, first, 'not-repeated', rtol=1e-9)
    if not same_rng(after, after2):
        ctx.fail('random-stream', 'the two trials used the random stream differently')
    # another seed is another noise, and only that
    if m.get('noise'):
        mp, out = C.build(ctx, m, 'c', parallel=cfg['par'])
        third, _, _ = ctx.sim(lambda: trial(falco, mp, out, cfg['seed'] + 12345),
                              max_steps=20000000)
        if np.array_equal(third['IrawCorrHist'] if 'IrawCorrHist' in third
                          else third['InormHist'],
                          first['IrawCorrHist'] if 'IrawCorrHist' in first
                          else first['InormHist']):
            ctx.fail('no-noise', 'another seed gave the same noisy images')
    for k in sorted(first):
        if k != 'serialDate':
            ctx.digest(k, first[k])
    ctx.nontrivial = True
    ctx.key(m['coro'], m['controller'], cfg['par'], bool(m.get('noise')), cfg['before'])
