"""A control step is a transaction on the DM commands."""
import copy
import numpy as np
from props import common as C
import faults as F

ID = 'C10'
QUICK = 360
RULE = ('a run counts when a fault was injected into the control step or all the '
        'trial exposures of an undisturbed step were recorded; distinct by '
        '(configuration, fault position, schedule hash)')
REAL = 'falco.ctrl, falco.imaging, falco.model, falco.dm'
STUB = ('the testbed camera (public seam get_testbed_sbp_image) is the simulated '
        'full model with injected failures; worker processes simulated')

EXC = {'runtime': RuntimeError, 'os': OSError, 'kbd': KeyboardInterrupt,
       'timeout': TimeoutError, 'value': ValueError,
       'linalg': np.linalg.LinAlgError, 'memory': MemoryError}


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2),
                         coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'))
    m.update(C.gen_constraints(rng))
    m['initV'] = rng.choice([0., 5., 20.])
    m['initSeed'] = rng.randrange(1000)
    if rng.random() < 0.2:
        C.gen_ad(rng, m)
    cfg = {'model': m, 'par': rng.random() < 0.3, 'testbed': rng.random() < 0.6,
           'fault': None, 'retries': rng.choice([1, 1, 2])}
    if rng.random() < 0.7:
        cfg['fault'] = {'what': rng.choice(['image', 'camera', 'camera', 'model',
                                            'solve', 'surface']),
                        'at': rng.random(), 'exc': rng.choice(sorted(EXC)),
                        'after': rng.random() < 0.4}
    if m['controller'] == 'AD-EFC':
        cfg['par'] = False
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'testbed': False, 'retries': 1})
    if cfg.get('fault'):
        yield dict(cfg, fault=dict(cfg['fault'], exc='runtime', after=False))


def targets(falco, what):
    return {'image': [(falco.imaging, 'get_summed_image'),
                      (falco.imaging, 'get_expected_summed_image')],
            'camera': [(falco.imaging, 'get_sbp_image')],
            'model': [(falco.model, 'compact'), (falco.model, 'full')],
            'surface': [(falco.dm, 'gen_surf_from_act')],
            'solve': [(np.linalg, 'solve')]}[what]


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, _ = C.build(ctx, m)
    C.setup_ad(falco, mp)
    cvar, ev, jac = C.prepare(falco, mp)
    falco.est.wrapper(mp, ev, jac)
    mp.flagParallel = cfg['par']
    shots = []
    if cfg['testbed']:
        C.install_camera(falco, mp, None)
        take = C.camera(falco)

        def cam(mp_, si):
            im = take(mp_, si)
            shots.append((si, mp_.dm1.V.copy(), mp_.dm2.V.copy(), im))
            return im
        falco.imaging.get_testbed_sbp_image = cam
    f = cfg['fault']
    grid = m['controller'] == 'gridsearchEFC'

    def control(mp, cvar, ev, jac):
        # as the loop does, hand over a shallow copy of the Jacobian
        if cfg['par']:
            return ctx.sim(lambda: C.control(falco, mp, cvar, ev, copy.copy(jac)))
        return C.control(falco, mp, cvar, ev, copy.copy(jac))

    def commands(mp):
        return {k: getattr(mp, 'dm%d' % k).V.copy() for k in (1, 2)}

    # ---- an undisturbed step
    mp0, cvar0, ev0, jac0 = copy.deepcopy((mp, cvar, ev, jac))
    V0 = commands(mp0)
    before = C.dm_state(mp)
    n = 0
    if f:
        with F.Calls(targets(falco, f['what'])) as c:
            control(mp0, cvar0, ev0, jac0)
        n = c.n
    else:
        control(mp0, cvar0, ev0, jac0)
    V1 = commands(mp0)
    active = sorted(int(k) for k in mp0.dm_ind)
    ctx.same(active, sorted(int(k) for k in mp.dm_ind), 'control-changed-active-dms')
    for k in (1, 2):
        dm = getattr(mp0, 'dm%d' % k)
        if k in active:
            ctx.close(V1[k], V0[k] + dm.dV, 'command-is-not-old-plus-delta',
                      'DM%d' % k, rtol=1e-9)
        else:
            ctx.close(V1[k], V0[k], 'unused-dm-moved', 'DM%d' % k, atol=1e-12)
    nreg = len(mp.ctrl.log10regVec)*len(mp.ctrl.dmfacVec)
    if cfg['testbed'] and not m['useModel'] and not cfg['par']:
        ctx.nontrivial = True
        check_trials(ctx, cfg, mp, mp0, cvar0, list(shots), V0, V1, nreg, grid)
    # ---- a failing one, then again
    if f and n and not (cfg['par'] and m['useModel']):
        for r in range(cfg['retries']):
            exc = EXC[f['exc']]('injected')
            with F.Calls(targets(falco, f['what']), F.pick(f['at'], n), exc,
                         f['after']) as c:
                try:
                    control(mp, cvar, ev, jac)
                    failed = False
                except BaseException as e:
                    if e is not exc and not isinstance(e, type(exc)):
                        raise
                    failed = True
            if not c.fired:
                break
            ctx.fault('failing ' + f['what'])
            if not failed:
                ctx.fail('failure-swallowed', 'the control step went on after a '
                         'failed %s' % f['what'])
            C.check_dm_state(ctx, before, mp, 'failed-step-moved-dms',
                             'after a failed control step')
    control(mp, cvar, ev, jac)
    s = np.sort(np.ravel(getattr(cvar0, 'InormVec', [])))
    if s.size > 1 and s[1] - s[0] < 1e-5*abs(s[-1]):
        ctx.stat('near_ties')
        return
    for k, v in commands(mp).items():
        ctx.close(v, V1[k], 'repeated-step-differs', 'DM%d' % k, rtol=1e-6,
                  atol=1e-8*(1 + np.max(np.abs(V1[k]))))
    ctx.digest(V1[1], V1[2])


def check_trials(ctx, cfg, mp, mp0, cvar, shots, V0, V1, nreg, grid):
    """The exposures of the trial commands, and which of them was kept."""
    nsbp = mp.Nsbp
    ctx.same(len(shots) % nsbp, 0, 'trial-without-all-sub-bands')
    mask = mp.Fend.corr.maskBool
    w = np.asarray(mp.sbp_weights).ravel()
    trials = []
    for t in range(len(shots)//nsbp):
        g = shots[t*nsbp:(t + 1)*nsbp]
        ctx.same(sorted(int(s[0]) for s in g), list(range(nsbp)),
                 'trial-without-all-sub-bands')
        for s in g[1:]:
            ctx.close(s[1], g[0][1], 'command-changed-within-trial', atol=1e-12)
            ctx.close(s[2], g[0][2], 'command-changed-within-trial', atol=1e-12)
        im = sum(w[int(s[0])]*s[3] for s in g)
        trials.append((g[0][1], g[0][2], im))
    if not trials:
        ctx.fail('no-trial-image', 'the controller took no image')
    if grid:
        ctx.same(len(trials), nreg, 'number-of-trials')
        val = np.array([np.mean(t[2][mask]) for t in trials])
        ctx.close(np.sort(cvar.InormVec), np.sort(val), 'recorded-intensities',
                  rtol=1e-9)
        best = int(np.argmin(val))
        s = np.sort(val)
        if s.size > 1 and s[1] - s[0] < 1e-6*abs(s[-1]):
            return
        ctx.close(cvar.cMin, s[0], 'recorded-best-intensity', rtol=1e-9)
    else:
        row = next(r for r in cfg['model']['sched'] if r[0])
        val = [np.mean(t[2][mask]) for t in trials[:nreg]] if row[4] else []
        regs = [r for _ in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
        again = not (row[4] and row[1][1] and not row[1][0])
        ctx.same(len(trials), len(val) + again, 'number-of-trials')
        s = np.sort(val)
        if s.size > 1 and s[1] - s[0] < 1e-6*abs(s[-1]):
            return
        reg = row[1][0]
        if row[1][1]:
            reg += regs[int(np.argmin(val))]
        ctx.close(cvar.log10regUsed, reg, 'regularization-used', atol=1e-9)
        best = -1 if again else int(np.argmin(val))
        ctx.close(cvar.cMin, np.mean(trials[best][2][mask]),
                  'recorded-best-intensity', rtol=1e-9)
    for k in (1, 2):
        ctx.close(trials[best][k - 1], V1[k], 'applied-command-is-not-best-trial',
                  'DM%d' % k, rtol=1e-7, atol=1e-9)
    ctx.close(cvar.Im, trials[best][2], 'stored-image-of-another-trial', rtol=1e-9)
