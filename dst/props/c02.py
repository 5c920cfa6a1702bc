"""Parallel intensity normalisation and model-based estimation equal serial."""
import copy
import numpy as np
from props import common as C

ID = 'C02'
QUICK = 300
RULE = ('a run counts when at least two context switches happened inside the '
        'parallel section; distinct by (configuration, schedule hash)')
REAL = 'falco.imaging.calc_psf_norm_factor, falco.est, falco.model, falco.proper, executors'
STUB = 'OS threads are serialised by the seeded scheduler'


def gen(rng, i):
    m = C.gen_model(rng)
    if rng.random() < 0.5:
        m['zerns'] = rng.choice([[1, 2], [1, 2, 3], [1, 4]])
    if m.get('layout') != 'proper' and m['coro'] != 'HLC' and rng.random() < 0.3:
        m['stars'] = rng.choice([2, 3])
    return {'model': m, 'ops': rng.choice([['norm', 'est'], ['est'], ['norm'],
                                           ['est', 'est'], ['est', 'sum']]),
            'sched': C.sched(rng)}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    for o in (['norm'], ['est']):
        if cfg['ops'] != o:
            yield dict(cfg, ops=o)


def work(falco, mp, ops):
    out = []
    for o in ops:
        if o == 'norm':
            mp.Fend.full.I00 = 1 + 0*mp.Fend.full.I00
            falco.imaging.calc_psf_norm_factor(mp)
            out.append(('full-model normalisation', mp.Fend.full.I00.copy()))
            out.append(('compact-model normalisation', mp.Fend.compact.I00.copy()))
            out.append(('evaluation-model normalisation', mp.Fend.eval.I00.copy()))
        elif o == 'est':
            ev = falco.config.Object()
            falco.est.wrapper(mp, ev, falco.config.Object())
            out.append(('estimated field', ev.Eest.copy()))
            out.append(('image of the estimator', ev.imageArray.copy()))
        else:
            out.append(('band-averaged image', falco.imaging.get_summed_image(mp)))
    return out


def run(cfg, ctx):
    import falco
    mp, _ = C.build(ctx, cfg['model'], estimator='perfect')
    ref = work(falco, copy.deepcopy(mp), cfg['ops'])
    mp.flagParallel = True
    got = ctx.sim(lambda: work(falco, mp, cfg['ops']))
    for (w, a), (_, b) in zip(got, ref):
        ctx.digest(a)
        ctx.close(a, b, 'parallel-differs:' + w.replace(' ', '-'), w)
