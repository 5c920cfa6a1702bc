"""Shared generators and helpers of the scenario modules."""
import copy
import json
import os

import numpy as np

import sim as S
import tiny


def paths(ctx, sub='w', label='sim_trial'):
    import falco
    root = os.path.join(ctx.scratch, sub)
    p = {'falco': os.path.dirname(os.path.dirname(falco.__file__))}
    for k in ('brief', 'jac', 'ws'):
        p[k] = os.path.join(root, k)
        os.makedirs(p[k], exist_ok=True)
    p['label'] = label
    return p


def build(ctx, model, sub='w', label='sim_trial', parallel=False, **over):
    """Fleshed-out model from a JSON configuration, outside the simulator."""
    import falco
    m = dict(model)
    m.update(over)
    m['flagParallel'] = parallel
    np.random.seed(1234)
    return tiny.build(falco, paths(ctx, sub, label), **m)


# run labels, and files of other trials beside those of a trial
LABELS = ['sim_trial', 'S.0_T.1', 'a trial', 'T0001.v2', 'all_snippet']
OTHERS = ['sim', 'sim_trial.1', 'S', 'S.0', 'S.0_T', 'S.0_T.10', 'a', 'a_trial', 'trial',
          'T0001', 'T0001.v1', 'default_label', 'default_label_', 'all', 'snippet']


def others(d):
    """Files of other trials in a directory; returns their content."""
    r = {}
    for x in OTHERS:
        for y in ('_snippet.pkl', '_all.pkl', '_config.yaml'):
            r[os.path.join(d, x + y)] = b'of another trial: %s' % x.encode()
    for k, v in r.items():
        with open(k, 'wb') as f:
            f.write(v)
    return r


def check_others(ctx, files):
    for k, v in files.items():
        try:
            with open(k, 'rb') as f:
                ok = f.read() == v
        except OSError:
            ok = False
        if not ok:
            ctx.fail('file-of-other-trial', os.path.basename(k))


def gen_ad(rng, m):
    """Turn a loop configuration into one for the AD-EFC controller."""
    m.update(controller='AD-EFC', diffdm=True, sched=gen_sched(rng, m['Nitr']),
             Nsbp=1 if m['coro'] != 'HLC' else 2)
    for r in m['sched']:
        r[2] = 12
        if rng.random() < 0.4 and r[4]:
            r[1] = [0., 1.]
    # the penalty matters only when it is strong
    m['log10reg'] = rng.choice([[1., 4.], [2., 4., 3.], [5., 3.], [4.]])
    for k in ('fullres', 'dm_ind', 'dm1stop', 'dm2stop', 'relin', 'dmfac'):
        m.pop(k, None)


def setup_ad(falco, mp):
    """What scripts add to the configuration for AD-EFC."""
    if mp.controller.lower() != 'ad-efc':
        return
    mp.ctrl.ad.maxiter = 3
    mp.ctrl.ad.iprint = -1
    mp.ctrl.ad.dm1_act_mask_for_jac_norm = np.ones(mp.dm1.NactTotal, dtype=bool)
    mp.ctrl.ad.dm2_act_mask_for_jac_norm = np.ones(mp.dm2.NactTotal, dtype=bool)
    mp.dm_ind = np.array([1, 2])
    falco.ctrl.set_utu_scale_fac(mp)


def sched(rng, seed_tag=''):
    return {'seed': '%s%d' % (seed_tag, rng.randrange(1 << 40)),
            'strategy': S.random_strategy(rng)}


CORO = ['LC', 'LC', 'APLC', 'HLC', 'FLC', 'SPLC', 'vortex', 'proper', 'proper']


def gen_model(rng, coros=CORO, multi_wvl=True, threads=(2, 3, 4)):
    """A random small coronagraph configuration."""
    m = {}
    c = rng.choice(coros)
    if c == 'proper':
        m.update(coro='LC', layout='proper')
        m['pol_conds'] = rng.choice([[0], [-1, 1], [-2, -1, 1, 2], [-1, 1]])
    else:
        m['coro'] = c
        if c == 'HLC':
            m['layout'] = 'fpm_scale'
    if multi_wvl:
        m['Nsbp'] = rng.choice([1, 2, 3])
        m['Nwpsbp'] = rng.choice([1, 2, 3])
        if c == 'HLC' and m['Nsbp'] == 1 and m['Nwpsbp'] == 1:
            m['Nsbp'] = 2
    m['Nthreads'] = rng.choice(list(threads))
    if rng.random() < 0.6:
        m['initV'] = rng.choice([5., 20.])
        m['initSeed'] = rng.randrange(1000)
    if c not in ('proper', 'HLC') and rng.random() < 0.5:
        m['pupilE'] = 0.3
    if c not in ('proper',) and rng.random() < 0.3:
        m['fullres'] = 14
    r = rng.random()
    if r < 0.2:
        m['dm_ind'] = [1]
    elif r < 0.4:
        m['dm_ind'] = [2]
    if rng.random() < 0.2:
        m['nact2'] = 7      # DMs of different sizes
    if rng.random() < 0.25:
        m['diffdm'] = True
    if c != 'proper' and rng.random() < 0.15:
        m['centering'] = 'interpixel'
    for k in ('orient1', 'orient2'):
        if rng.random() < 0.15:
            m[k] = rng.choice(['rot90', 'rot180', 'flipxrot0', 'flipxrot270', 'rot0'])
    if rng.random() < 0.15:
        m['geom'] = rng.choice(['xyz', 'zyx'])
    if rng.random() < 0.1:
        m['Hmin'] = [1e-10, rng.choice(['round', 'floor', 'fix'])]
    if rng.random() < 0.2:
        m['bias'] = rng.choice([0.1, 0.5])
    if rng.random() < 0.2:
        m['vtoh'] = 0.5
    if rng.random() < 0.15:
        m['sides'] = rng.choice(['left', 'right', 'top', 'bottom', 'updown'])
    if c != 'proper' and rng.random() < 0.15:
        m['relays'] = rng.choice([[0, 1, 1, 0], [1, 2, 1, 0], [1, 1, 1, 1], [2, 2, 0, 1]])
    if rng.random() < 0.2:
        m['dm1stop'] = True
    if rng.random() < 0.2:
        m['dm2stop'] = True
    return m


def shrink_model(m):
    """Simpler variants of a model configuration."""
    for k in sorted(m):
        if k in ('coro', 'layout', 'Nitr') or (
                k == 'sched' and m.get('controller', '') in ('plannedEFC', 'AD-EFC')):
            continue
        n = dict(m)
        del n[k]
        yield n
    if m.get('layout') == 'proper' and len(m.get('pol_conds') or []) > 2:
        yield dict(m, pol_conds=m['pol_conds'][:2])
    for k in ('Nsbp', 'Nwpsbp'):
        if m.get(k, 1) > 1:
            yield dict(m, **{k: m[k] - 1})
    if m.get('Nthreads', 2) > 2:
        yield dict(m, Nthreads=2)


def shrink_keys(cfg, simple):
    """Try to replace each named entry by its simplest value."""
    for k, v in simple.items():
        if k in cfg and cfg[k] != v:
            c = dict(cfg)
            c[k] = v
            yield c


def shrink_std(cfg):
    for m in shrink_model(cfg['model']):
        yield dict(cfg, model=m)


def quiet(fn, *a, **k):
    return fn(*a, **k)


def dm_state(mp):
    """Everything a user can see of the DM commands and the DM selection."""
    st = {'dm_ind': np.array(mp.dm_ind).copy()}
    for n in (1, 2):
        dm = getattr(mp, 'dm%d' % n)
        st['V%d' % n] = np.array(dm.V, dtype=float).copy()
        for a in ('pinned', 'Vpinned', 'tied', 'dead'):
            if hasattr(dm, a):
                st['%s%d' % (a, n)] = np.array(getattr(dm, a)).copy()
    return st


def check_dm_state(ctx, before, mp, sig, what='', skip=()):
    now = dm_state(mp)
    for k in sorted(before):
        if k in skip:
            continue
        a, b = now[k], before[k]
        ctx.evals += 1
        if k == 'dm_ind':
            if sorted(a.ravel().tolist()) != sorted(b.ravel().tolist()):
                ctx.fail(sig + ':dm_ind', '%s: active DMs %r, before %r'
                         % (what, a.tolist(), b.tolist()))
        elif a.shape != b.shape or not np.allclose(
                a, b, rtol=1e-10, atol=1e-10*(1 + np.max(np.abs(b), initial=0))):
            ctx.fail(sig + ':' + k.rstrip('12'), '%s: %s changed from %s to %s' % (
                what, k, _s(b), _s(a)))


def _s(x):
    r = np.array2string(np.asarray(x), precision=4, threshold=20).replace('\n', ' ')
    return r[:300]


def gen_loop_model(rng, controllers=('gridsearchEFC', 'plannedEFC'), Nitr=(1, 2, 3),
                   coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC', 'proper')):
    """A configuration for whole wavefront-control iterations."""
    m = gen_model(rng, coros=list(coros))
    m['Nsbp'] = rng.choice([1, 1, 2])
    if m.get('coro') == 'HLC':
        m['Nsbp'] = 2
    m['Nwpsbp'] = rng.choice([1, 1, 2])
    m['fov'] = 4.
    m['evalZ'] = []
    m['Rsens'] = []
    m['controller'] = rng.choice(list(controllers))
    n = m['Nitr'] = rng.choice(list(Nitr))
    m['useModel'] = rng.random() < 0.5
    m['log10reg'] = rng.choice([[-4., -2.], [-3.], [-5., -3., -2.]])
    if rng.random() < 0.4:
        m['dmfac'] = rng.choice([[0.8, 1.], [1.2], [0.7, 1.3]])
    dms = ''.join(map(str, m.get('dm_ind', [1, 2])))
    if m['controller'] == 'plannedEFC':
        m.pop('dm_ind', None)
        m['sched'] = gen_sched(rng, n)
    elif rng.random() < 0.5:
        m['relin'] = sorted(rng.sample(range(n), rng.randrange(0, n + 1)))
    if rng.random() < 0.3:
        m['logGmin'] = rng.choice([-1.5, -1., -3.])
    return m


def gen_sched(rng, n):
    """An EFC schedule of n iterations.  A changed DM set re-linearises."""
    rows = []
    left = n
    dms = rng.choice(['12', '1', '2'])
    first = True
    while left:
        k = rng.randrange(1, left + 1)
        relin = 1 if first else rng.randrange(2)
        if not first and rng.random() < 0.4:
            new = rng.choice(['12', '1', '2'])
            if new != dms:
                dms, relin = new, 1
        grid = 1 if first else rng.randrange(2)
        reg = rng.choice([[-3., 0.], [0., 1.], [-1., 1.], [-2., 0.]])
        if not first and rng.random() < 0.2:    # only to re-linearise
            rows.append([0, [0., 0.], 0, 1, 0])
            relin = 0
        rows.append([k, reg, int(dms), relin, grid])
        left -= k
        first = False
    return rows


def sched_matrix(rows):
    return [[r[0], complex(*r[1]), r[2], r[3], r[4]] for r in rows]


def prepare(falco, mp, Itr=0):
    """What the WFSC loop does in an iteration before estimation."""
    cvar = falco.config.Object()
    ev = falco.config.Object()
    cvar.Itr = Itr
    ev.Itr = Itr
    if mp.controller.lower() == 'plannedefc':
        mp.dm_ind = mp.dm_ind_sched[Itr]
    falco.imaging.calc_psf_norm_factor(mp)
    falco.setup.falco_set_jacobian_modal_weights(mp)
    cvar.flagRelin = True
    jac = falco.model.jacobian(mp)
    falco.ctrl.cull_weak_actuators(mp, cvar, jac)
    return cvar, ev, jac


def control(falco, mp, cvar, ev, jac):
    cvar.Eest = ev.Eest
    cvar.NeleAll = sum(getattr(mp, 'dm%d' % k).Nele for k in range(1, 10))
    falco.ctrl.wrapper(mp, cvar, jac)


def histories(out, pre=''):
    """All numeric records of the output object, by name."""
    o = {}
    for k, v in sorted(vars(out).items()):
        if isinstance(v, np.ndarray) and v.dtype.kind in 'biufc':
            o[pre + k] = v.copy()
        elif isinstance(v, (int, float, complex, np.number)):
            o[pre + k] = np.array(v)
        elif isinstance(v, list):
            try:
                a = np.array(v)
                if a.dtype.kind in 'biufc':
                    o[pre + k] = a
            except ValueError:
                pass
        elif hasattr(v, '__dict__'):
            o.update(histories(v, pre + k + '.'))
    return o


def compare_histories(ctx, got, ref, sig, rtol=1e-6, skip=('serialDate',)):
    for k in sorted(ref):
        if k.split('.')[-1] in skip:
            continue
        if k not in got:
            ctx.fail(sig + ':missing', k)
        a, b = got[k], ref[k]
        if a.shape != b.shape:
            ctx.fail(sig + ':' + k, 'shape %r, expected %r' % (a.shape, b.shape))
        if b.size == 0:
            continue
        fin = np.isfinite(b)
        if not np.array_equal(np.isfinite(a), fin):
            ctx.fail(sig + ':' + k, 'non-finite values differ')
        ctx.close(np.where(fin, a, 0), np.where(fin, b, 0), sig + ':' + k, k,
                  rtol=rtol)
    ctx.evals += 1


def gen_constraints(rng, p=0.5):
    """Tied, dead and pinned actuators and voltage limits."""
    m = {}
    if rng.random() > p:
        return m
    for n in (1, 2):
        acts = list(range(36))
        rng.shuffle(acts)
        if rng.random() < 0.4:
            k = rng.choice([1, 2, 3])
            m['tied%d' % n] = [[acts[2*i], acts[2*i + 1]] for i in range(k)]
            if rng.random() < 0.3:      # a chain: 3 actuators tied together
                m['tied%d' % n].append([acts[1], acts[2*k]])
        if rng.random() < 0.4:
            m['dead%d' % n] = acts[10:10 + rng.choice([1, 2])]
        if rng.random() < 0.4:
            m['pinned%d' % n] = [[a, rng.choice([-3., 0., 5.])]
                                 for a in acts[20:20 + rng.choice([1, 2])]]
    return m


def camera(falco, hook=None):
    """A testbed camera that looks at the simulated full model."""
    def take(mp, si):
        if hook is not None:
            hook(mp, si)
        sim = copy.copy(mp)
        sim.flagSim = True
        return falco.imaging.get_sim_sbp_image(sim, si)
    return take


def install_camera(falco, mp, take):
    """Use the public testbed seam."""
    mp.flagSim = False
    falco.imaging.get_testbed_sbp_image = take
