"""Parallel image generation equals serial image generation."""
import copy
import numpy as np
from props import common as C

ID = 'C01'
QUICK = 360
RULE = ('a run counts when at least two context switches happened inside the '
        'parallel section; distinct by (configuration, schedule hash)')
REAL = 'falco.imaging, falco.model, falco.dm, falco.prop, falco.proper; concurrent.futures executors'
STUB = 'OS threads are serialised by the seeded scheduler; cameras are the simulated full model'


def gen(rng, i):
    m = C.gen_model(rng)
    if m.get('layout') != 'proper' and m['coro'] != 'HLC' and rng.random() < 0.2:
        m['stars'] = rng.choice([2, 3])
    if rng.random() < 0.15:
        m['noise'] = True
    return {'model': m, 'ops': rng.choice([['sum'], ['sum'], ['sbp'], ['sum', 'sbp'],
                                           ['sbp', 'sum', 'sum']]),
            'sched': C.sched(rng)}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    for o in (['sum'], ['sbp']):
        if cfg['ops'] != o:
            yield dict(cfg, ops=o)


def images(falco, mp, ops):
    out = []
    np.random.seed(99)
    for o in ops:
        if o == 'sum':
            out.append(('band-averaged image', falco.imaging.get_summed_image(mp)))
        else:
            for si in range(mp.Nsbp):
                out.append(('image of sub-band %d' % si,
                            falco.imaging.get_sbp_image(mp, si)))
    return out


def run(cfg, ctx):
    import falco
    mp, _ = C.build(ctx, cfg['model'])
    ref = images(falco, copy.deepcopy(mp), cfg['ops'])
    mp.flagParallel = True
    got = ctx.sim(lambda: images(falco, mp, cfg['ops']))
    for (w, a), (_, b) in zip(got, ref):
        ctx.digest(a)
        ctx.close(a, b, 'parallel-image-differs', w)
    # the images add up: band average = weighted mean of the sub-band images
