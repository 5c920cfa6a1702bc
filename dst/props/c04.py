"""Zernike sensitivities computed by worker processes equal serial ones."""
import copy
import numpy as np
from props import common as C

ID = 'C04'
QUICK = 200
RULE = ('a run counts when at least two context switches happened inside the '
        'parallel section; distinct by (configuration, schedule hash)')
REAL = 'falco.zern.calc_zern_sens, falco.model.full, falco.proper'
STUB = ('multiprocessing.Pool: simulated processes, each with its own copy of '
        'module state, arguments and results pickled')


def gen(rng, i):
    m = C.gen_model(rng, coros=['LC', 'FLC', 'HLC', 'vortex', 'proper', 'proper'])
    m['Nsbp'] = rng.choice([1, 1, 2])
    m['Nwpsbp'] = rng.choice([1, 2])
    m['evalZ'] = rng.choice([[2, 3], [2], [2, 3, 4], [4, 5, 6], [3, 2]])
    m['Rsens'] = rng.choice([[[2., 3.], [3., 4.]], [[2., 4.]]])
    zi = []
    if m.get('layout') == 'proper' and rng.random() < 0.5:
        zi = [[2, 3e-9]] if rng.random() < 0.5 else [[7, 2e-9], [3, 1e-9]]
    return {'model': m, 'zi': zi, 'after': rng.random() < 0.4,
            'zname': rng.choice(['zval_m', 'zval']),
            'sched': C.sched(rng)}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'zi': [], 'after': False})


def prep(falco, cfg, mp):
    if cfg['model'].get('layout') == 'proper':
        mp.full.flagPROPER = True
        mp.full.sim_zname = cfg['zname']
    if cfg['zi']:
        mp.full.zindex = np.array([z[0] for z in cfg['zi']])
        mp.full.zval_m = np.array([z[1] for z in cfg['zi']])
        mp.full.zval = mp.full.zval_m.copy()


def work(falco, cfg, mp):
    out = [('sensitivities', falco.zern.calc_zern_sens(mp))]
    if cfg['after']:
        out.append(('image taken afterwards', falco.imaging.get_summed_image(mp)))
        out.append(('sensitivities, second call', falco.zern.calc_zern_sens(mp)))
    return out


def raw(falco, mp):
    """A full-model field, straight from the model."""
    mv = falco.config.ModelVariables()
    mv.whichSource = 'star'
    mv.sbpIndex = mp.si_ref
    mv.wpsbpIndex = mp.wi_ref
    return falco.model.full(mp, mv)


def check_unchanged(falco, ctx, cfg, mp):
    """Sensitivities leave the models of their caller as they were."""
    for par in (False, True):
        a = copy.deepcopy(mp)
        a.flagParallel = par
        falco.imaging.calc_psf_norm_factor(a)
        E = raw(falco, a)
        n = a.Fend.full.I00.copy()
        if par:
            ctx.sim(lambda: falco.zern.calc_zern_sens(a))
        else:
            falco.zern.calc_zern_sens(a)
        ctx.close(raw(falco, a), E, 'sensitivity-changes-model')
        falco.imaging.calc_psf_norm_factor(a)
        ctx.close(a.Fend.full.I00, n, 'sensitivity-changes-normalization')


def run(cfg, ctx):
    import falco
    mp, _ = C.build(ctx, cfg['model'])
    prep(falco, cfg, mp)
    ref = work(falco, cfg, copy.deepcopy(mp))
    if cfg['after']:
        check_unchanged(falco, ctx, cfg, mp)
        im0 = falco.imaging.get_summed_image(copy.deepcopy(mp))
        ctx.close(ref[1][1], im0, 'serial-sensitivity-changes-image', 'image after a serial run')
        ctx.close(ref[2][1], ref[0][1], 'serial-sensitivity-not-repeatable', 'second serial run')
    mp.flagParallel = True
    got = ctx.sim(lambda: work(falco, cfg, mp))
    for (w, a), (_, b) in zip(got, ref):
        ctx.digest(a)
        ctx.close(a, b, 'parallel-differs:' + w.replace(' ', '-'), w)
