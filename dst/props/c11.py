"""Evaluations leave the model as it was, also when they fail."""
import copy
import numpy as np
from props import common as C
import faults as F
from props.c17 import leaves, equal

ID = 'C11'
QUICK = 150
RULE = ('a run counts when a history of at least two evaluations was compared with '
        'the same evaluations of an untouched model; distinct by (configuration, '
        'history, fault position, schedule hash)')
REAL = ('falco.imaging, falco.model, falco.est.perfect, falco.zern, falco.dm, '
        'falco.wfsc statistics')
STUB = 'OS threads and worker processes simulated; injected failures of calls'

OPS = ['image', 'image', 'sbp', 'norm', 'thput', 'full', 'compact', 'unocc',
       'offaxis', 'zsens', 'surf', 'stats', 'perfect', 'jac', 'esim', 'evalmode', 'expected']


def gen(rng, i):
    m = C.gen_model(rng)
    m['fov'] = 4.
    m.setdefault('initV', 10.)
    m['Rsens'], m['evalZ'] = [[2., 3.]], rng.choice([[2], [2, 3], [4, 2]])
    if m.get('layout') != 'proper' and rng.random() < 0.25 and m['coro'] != 'HLC':
        m['stars'] = 2
    cfg = {'model': m, 'par': rng.random() < 0.35, 'ops': [
        [rng.choice(OPS), rng.randrange(3),
         rng.random() if rng.random() < 0.25 else None]
        for _ in range(rng.choice([3, 4, 5]))]}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    for i in range(len(cfg['ops'])):
        if len(cfg['ops']) > 1:
            yield dict(cfg, ops=cfg['ops'][:i] + cfg['ops'][i+1:])
    for i, o in enumerate(cfg['ops']):
        if o[2] is not None:
            yield dict(cfg, ops=cfg['ops'][:i] + [[o[0], o[1], None]]
                       + cfg['ops'][i+1:])
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False})


def evaluate(falco, mp, op, a):
    si = a % mp.Nsbp
    mv = falco.config.ModelVariables()
    mv.sbpIndex, mv.wpsbpIndex, mv.starIndex = si, a % mp.Nwpsbp, 0
    mv.whichSource, mv.zernIndex = 'star', 1
    if op == 'image':
        return falco.imaging.get_summed_image(mp)
    if op == 'sbp':
        return falco.imaging.get_sbp_image(mp, si)
    if op == 'norm':
        falco.imaging.calc_psf_norm_factor(mp)
        return np.array([np.array(mp.Fend.compact.I00), np.array(mp.Fend.eval.I00),
                         np.mean(np.array(mp.Fend.full.I00))*np.ones(mp.Nsbp)])
    if op == 'thput':
        t, im = falco.imaging.calc_thput(mp)
        return np.append(np.ravel(im), np.max(t))
    if op == 'full':
        return falco.model.full(mp, mv)
    if op == 'compact':
        return falco.model.compact(mp, mv)
    if op == 'unocc':
        return falco.model.compact(mp, mv, useFPM=False)
    if op == 'evalmode':
        return falco.model.compact(mp, mv, isEvalMode=True)
    if op == 'offaxis':
        return falco.imaging.get_sim_offaxis_image_compact(mp, 3., a, isEvalMode=False)
    if op == 'zsens':
        return falco.zern.calc_zern_sens(mp)
    if op == 'surf':
        dm = mp.dm1 if a % 2 else mp.dm2
        return falco.dm.gen_surf_from_act(dm, dm.compact.dx, dm.compact.Ndm)
    if op == 'stats':
        o = falco.config.Object()
        for k in (1, 2):
            setattr(o, 'dm%d' % k, falco.config.Object())
            for n in ('Vpv', 'Spv', 'Srms'):
                setattr(getattr(o, 'dm%d' % k), n, np.zeros(1))
        falco.wfsc.falco_compute_dm_stats(mp, o, 0)
        return np.array([[getattr(getattr(o, 'dm%d' % k), n)[0]*s for n, s in (
            ('Vpv', 1), ('Spv', 1e9), ('Srms', 1e9))] for k in (1, 2)])
    if op == 'perfect':
        ev = falco.config.Object()
        falco.est.perfect(mp, ev)
        return np.array(ev.Eest)
    if op == 'jac':
        j = falco.model.jacobian(mp)
        return np.concatenate([np.ravel(getattr(j, 'G%d' % k)) for k in (1, 2)
                               if any(mp.dm_ind == k)])
    if op == 'esim':
        return falco.wfsc.compute_simulated_efield_for_delta_efield_plot(mp)
    if op == 'expected':
        cv, d = falco.config.Object(), falco.config.Object()
        falco.est.perfect(mp, cv)
        g = np.random.RandomState(a)
        d.dDM1V, d.dDM2V = [g.uniform(-3, 3, x.V.shape) for x in (mp.dm1, mp.dm2)]
        return falco.imaging.get_expected_summed_image(mp, cv, d)
    raise KeyError(op)


def check_values(ctx, a, b, op):
    """What the model holds is not changed (the mask of an HLC is a working value)."""
    for k in a:
        if k.endswith('.mask') or k == 'flagParallel':
            continue
        ctx.evals += 1
        if k not in b or not equal(a[k], b[k]):
            ctx.fail('evaluation-changed-model', '%s: %s changed from %.60r to %.60r'
                     % (op, k, a[k], b.get(k)))


def ok(mp, m, op):
    if op in ('zsens',) and m.get('stars', 1) > 1:
        return False
    return True


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, _ = C.build(ctx, m)
    falco.imaging.calc_psf_norm_factor(mp)
    falco.setup.falco_set_jacobian_modal_weights(mp)
    pristine = copy.deepcopy(mp)
    before = C.dm_state(mp)
    mp.flagParallel = cfg['par']
    values = leaves(falco, mp)
    n = 0
    for op, a, f in cfg['ops']:
        if not ok(mp, m, op):
            continue
        if f is not None and not cfg['par']:
            targets = [(falco.model, 'compact'), (falco.model, 'full'),
                       (falco.dm, 'gen_surf_from_act'), (falco.prop, 'mft_p2f'),
                       (falco.util, 'pad_crop')]
            probe = copy.deepcopy(pristine)
            with F.Calls(targets) as c:
                evaluate(falco, probe, op, a)
            if c.n:
                with F.Calls(targets, F.pick(f, c.n), OSError('injected')) as c:
                    try:
                        evaluate(falco, mp, op, a)
                    except OSError:
                        pass
                if c.fired:
                    ctx.fault('failing ' + op)
                C.check_dm_state(ctx, before, mp, 'evaluation-changed-dms',
                                 'failed ' + op)
        ref = evaluate(falco, copy.deepcopy(pristine), op, a)
        if cfg['par']:
            got = ctx.sim(lambda: evaluate(falco, mp, op, a))
        else:
            got = evaluate(falco, mp, op, a)
        n += 1
        ctx.close(got, ref, 'evaluation-depends-on-history:' + op,
                  'after %d evaluations' % n, rtol=1e-8)
        C.check_dm_state(ctx, before, mp, 'evaluation-changed-dms', op)
        check_values(ctx, values, leaves(falco, mp), op)
    ctx.nontrivial = n > 1
    im = evaluate(falco, mp, 'image', 0) if not cfg['par'] else \
        ctx.sim(lambda: evaluate(falco, mp, 'image', 0))
    ctx.close(im, evaluate(falco, pristine, 'image', 0), 'image-depends-on-history',
              rtol=1e-8)
    ctx.digest(im)
