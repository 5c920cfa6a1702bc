"""A failure in a parallel worker is reported and leaves nothing behind."""
import copy
import os

import numpy as np

from props import common as C
from props.c17 import leaves, equal
import faults as F

ID = 'C24'
QUICK = 220
RULE = ('a run counts when a worker failed; distinct by (configuration, calculation, '
        'failing call, schedule)')
REAL = ('falco.imaging, falco.est, falco.ctrl, falco.zern, falco.model, the thread '
        'pools of concurrent.futures')
STUB = ('worker processes are simulated; failures are injected into propagation, '
        'DM-surface and prescription calls')
EXC = {'runtime': F.InjectedFault, 'memory': MemoryError, 'os': OSError,
       'value': ValueError, 'stop': StopIteration, 'key': KeyError}
KINDS = ('image', 'sbp', 'norm', 'thput', 'jacobian', 'perfect', 'grid', 'zern')


def gen(rng, i):
    m = C.gen_model(rng)
    m['Nsbp'] = rng.choice([1, 2, 2]) if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = rng.choice([1, 2])
    m['fov'] = 4.
    kind = rng.choice(KINDS)
    if kind == 'jacobian':
        m['Nact'] = 4
    if kind == 'grid':
        m['useModel'] = True
        m['log10reg'] = rng.choice([[-4., -2.], [-5., -3., -2.]])
        m['dmfac'] = rng.choice([[1.], [0.8, 1.]])
    if kind == 'zern':
        m['evalZ'] = rng.choice([[2, 3], [2, 5, 6]])
    elif kind != 'norm':
        m['evalZ'] = []
        m['Rsens'] = []
    cfg = {'model': m, 'kind': kind, 'faults': [
        [rng.random(), rng.choice(sorted(EXC)), rng.random() < 0.3]
        for _ in range(rng.choice([1, 1, 2]))], 'sched': C.sched(rng)}
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    for k in range(len(cfg['faults'])):
        if len(cfg['faults']) > 1:
            yield dict(cfg, faults=cfg['faults'][:k] + cfg['faults'][k+1:])
    for k, f in enumerate(cfg['faults']):
        if f[1] != 'runtime' or f[2]:
            yield dict(cfg, faults=cfg['faults'][:k] + [[f[0], 'runtime', False]]
                       + cfg['faults'][k+1:])


def targets(falco):
    from falco import proper
    return [(falco.prop, 'mft_p2f'), (falco.prop, 'mft_f2p'), (falco.prop, 'ptp'),
            (falco.prop, 'mft_p2v2p'), (falco.dm, 'gen_surf_from_act'),
            (proper, 'prop_run'), (np.linalg, 'solve')]


def work(falco, kind, mp, aux):
    if kind == 'image':
        return [falco.imaging.get_summed_image(mp)]
    if kind == 'sbp':
        return [falco.imaging.get_sbp_image(mp, si) for si in range(mp.Nsbp)]
    if kind == 'norm':
        falco.imaging.calc_psf_norm_factor(mp)
        return [np.array(mp.Fend.full.I00), np.array(mp.Fend.compact.I00),
                np.array(mp.Fend.eval.I00)]
    if kind == 'thput':
        r = falco.imaging.calc_thput(mp)
        return [np.asarray(r[0]), np.asarray(r[1])]
    if kind == 'jacobian':
        j = falco.model.jacobian(mp)
        return [getattr(j, 'G%d' % k) for k in (1, 2) if k in mp.dm_ind]
    if kind == 'perfect':
        ev = falco.config.Object()
        ev.Itr = 0
        falco.est.wrapper(mp, ev, None)
        return [np.array(ev.Eest), np.array(ev.Im)]
    if kind == 'grid':
        cvar, ev, jac = copy.deepcopy(aux)
        C.control(falco, mp, cvar, ev, jac)
        return [np.array(cvar.InormVec)] + [getattr(mp, 'dm%d' % k).V.copy()
                                            for k in (1, 2)]
    return [falco.zern.calc_zern_sens(mp)]


# what a calculation is there to set
SETS = {'norm': ('I00', 'sumI00'), 'grid': (), 'thput': (), 'zern': ()}


def run(cfg, ctx):
    import falco
    kind = cfg['kind']
    mp, _ = C.build(ctx, cfg['model'])
    aux = None
    if kind == 'grid':
        aux = C.prepare(falco, mp)
        falco.est.wrapper(mp, aux[1], aux[2])
    elif kind != 'norm':
        falco.imaging.calc_psf_norm_factor(mp)
    falco.setup.falco_set_jacobian_modal_weights(mp)
    ref = work(falco, kind, copy.deepcopy(mp), aux)
    mp.flagParallel = True
    tg = targets(falco)
    for frac, exc, after in cfg['faults']:
        m2 = copy.deepcopy(mp)
        with F.Calls(tg) as c:
            ctx.sim(lambda: work(falco, kind, m2, aux))
        if not c.n:
            return
        before = {k: copy.deepcopy(v) for k, v in leaves(falco, mp).items()}
        e = EXC[exc]('injected')
        got = None
        with F.Calls(tg, F.pick(frac, c.n), e, after) as c2:
            try:
                got = ctx.sim(lambda: work(falco, kind, mp, aux))
            except BaseException as x:
                if not isinstance(x, EXC[exc]) and not (
                        exc == 'stop' and isinstance(x, RuntimeError)):
                    raise
        if not c2.fired:
            continue
        ctx.fault('failing %s in %s' % (c2.fired, kind))
        if got is not None:
            ctx.fail('failure-swallowed', '%s: %s failed in a worker, but the result was '
                     'returned' % (kind, c2.fired))
        if ctx.last.leaked:
            ctx.fail('workers-left', '%s: %r' % (kind, ctx.last.leaked))
        now = leaves(falco, mp)
        for k in sorted(before):
            if k.split('.')[-1] in SETS.get(kind, ()):
                continue
            if k in ('F3.compact.mask', 'F3.full.mask') and cfg['model']['coro'] == 'HLC':
                continue        # that of the last wavelength that was computed
            if k not in now or not equal(now[k], before[k]):
                ctx.fail('model-changed', '%s: %s after a failed %s' % (kind, k, c2.fired))
        ctx.evals += len(before)
    # the same again, undisturbed
    got = ctx.sim(lambda: work(falco, kind, mp, aux))
    for j, (a, b) in enumerate(zip(got, ref)):
        ctx.digest(a)
        ctx.close(a, b, 'retry-differs', '%s, output %d' % (kind, j), rtol=1e-6)
    ctx.key(kind, cfg['model']['coro'])
