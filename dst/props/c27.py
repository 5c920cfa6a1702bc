"""Pairwise probing: what is commanded, recorded and estimated."""
import copy
import numpy as np
from props import common as C

ID = 'C27'
QUICK = 160
RULE = ('a run counts when a whole acquisition was recorded through the camera '
        'seam and its estimate compared; distinct by (configuration, image '
        'disturbances, schedule hash)')
REAL = 'falco.est.pairwise_probing and the models, DM code and imaging below it'
STUB = ('the testbed camera (public seam get_testbed_sbp_image) is the simulated '
        'full model plus seeded disturbances')


def gen(rng, i):
    m = C.gen_model(rng, coros=['LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'])
    m['fov'] = 4.
    m['Nsbp'] = rng.choice([1, 2, 3]) if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = 1
    m['estimator'] = rng.choice(['pairwise', 'pairwise-square', 'pwp-bp-square',
                                 'pairwise-rect', 'pwp-bp'])
    m['probeDM'] = rng.choice([1, 2])
    m['probeAxis'] = rng.choice(['x', 'y', 'alternate'])
    m['Npairs'] = rng.choice([2, 3, 3, 4])
    m['initV'] = rng.choice([0., 5., 20.])
    m['initSeed'] = rng.randrange(1000)
    if m['coro'] != 'HLC' and rng.random() < 0.25:
        m['stars'] = rng.choice([2, 2, 3])
        m['estimator'] = rng.choice(['pairwise-rect', 'pwp-bp'])
    dms = m.get('dm_ind', [1, 2])
    if m['probeDM'] in dms and rng.random() < 0.35:
        m['flagUseJac'] = True
    cfg = {'model': m, 'Itr': rng.randrange(3), 'noise': rng.choice([0, 0, 1, 3]),
           'par': rng.random() < 0.2, 'sched_probe': {}}
    for k in ('x', 'y', 'rot', 'Inorm'):
        if rng.random() < 0.35:
            cfg['sched_probe'][k] = {
                'x': [0, 1, -1], 'y': [1, 0, -1], 'rot': [0., 20., -35.],
                'Inorm': [3e-6, 1e-5, 5e-5]}[k][:]
            rng.shuffle(cfg['sched_probe'][k])
    cfg['seed'] = rng.randrange(1 << 30)
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'noise': 0, 'Itr': 0,
                                   'sched_probe': {}})


ATTR = {'x': ('xOffsetVec', 'xOffset'), 'y': ('yOffsetVec', 'yOffset'),
        'rot': ('rotationVec', 'rotation')}


def acquire(falco, cfg, ctx, mp, ev, jac, camera_seed, par):
    """One estimation; returns the list of exposures (si, V1, V2, dm_ind, image)."""
    rng = np.random.RandomState(camera_seed)
    shots = []
    take = C.camera(falco)

    def cam(mp_, si):
        im = take(mp_, si)
        if cfg['noise']:
            s = cfg['noise']*0.02*np.sqrt(np.mean(im**2))
            im = im + s*rng.randn(*im.shape)
        shots.append((int(si), mp_.dm1.V.copy(), mp_.dm2.V.copy(),
                      sorted(int(k) for k in mp_.dm_ind), im.copy()))
        return im
    C.install_camera(falco, mp, cam)
    if par:
        ctx.sim(lambda: falco.est.wrapper(mp, ev, jac))
    else:
        falco.est.wrapper(mp, ev, jac)
    return shots


def set_schedule(mp, sp):
    for k, v in sp.items():
        if k == 'Inorm':
            mp.est.probeSchedule.InormProbeVec = np.array(v)
        else:
            setattr(mp.est.probeSchedule, ATTR[k][0], np.array(v))


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, _ = C.build(ctx, m, parallel=cfg['par'])
    mp.Nitr = 3
    cvar, ev, jac = C.prepare(falco, mp)
    ev.Itr = cfg['Itr']
    base = copy.deepcopy((mp, ev))
    sp = cfg['sched_probe']
    set_schedule(mp, sp)
    V0 = {1: mp.dm1.V.copy(), 2: mp.dm2.V.copy()}
    w = m['probeDM']
    o = 3 - w
    shots = acquire(falco, cfg, ctx, mp, ev, jac, cfg['seed'], cfg['par'])
    ctx.nontrivial = True
    np_ = m['Npairs']
    per = 1 + 2*np_
    # ---- protocol
    nst = m.get('stars', 1)
    groups = [(st, b) for st in range(nst) for b in range(mp.Nsbp)]
    ctx.same(len(shots), len(groups)*per, 'number-of-images')
    used = sorted(set(int(k) for k in base[0].dm_ind) | {w})
    d = np.zeros((len(groups), 2*np_) + V0[w].shape)
    for k, (si, v1, v2, dms, im) in enumerate(shots):
        b, j = divmod(k, per)
        v = {1: v1, 2: v2}
        ctx.same(si, groups[b][1], 'sub-band-order', 'image %d' % k)
        ctx.same(dms, used, 'used-dms-during-probing', 'image %d' % k)
        ctx.close(v[o], V0[o], 'other-dm-moved', 'image %d' % k, atol=1e-12)
        if j == 0:
            ctx.close(v[w], V0[w], 'first-image-is-probed', 'sub-band %d' % b,
                      atol=1e-12)
        else:
            d[b, j - 1] = v[w] - V0[w]
    scale = np.max(np.abs(d))
    if not scale > 0:
        ctx.fail('no-probe', 'probe commands are zero')
    for b in range(len(groups)):
        for j in range(np_):
            ctx.close(d[b, 2*j + 1], -d[b, 2*j], 'pair-not-opposite',
                      'sub-band %d pair %d' % (b, j), rtol=1e-6, atol=1e-9*scale)
            if not np.max(np.abs(d[b, 2*j])) > 1e-3*scale:
                ctx.fail('zero-probe', 'sub-band %d pair %d' % (b, j))
        for j in range(np_):
            for k in range(j):
                if min(np.max(np.abs(d[b, 2*j] - d[b, 2*k])),
                       np.max(np.abs(d[b, 2*j] + d[b, 2*k]))) < 1e-6*scale:
                    ctx.fail('repeated-probe', 'pairs %d and %d' % (k, j))
    # ---- records: the unprobed images of the first star's probing, and the
    # probed ones of the last
    Im = 0
    for k, (si, v1, v2, dms, im) in enumerate(shots):
        g, j = divmod(k, per)
        st, b = groups[g]
        if st != (0 if j == 0 else nst - 1):
            continue
        ctx.close(ev.imageArray[:, :, j, b], im, 'recorded-image',
                  'image %d of sub-band %d' % (j, b))
        for n, v in ((1, v1), (2, v2)):
            if n in used:
                ctx.close(getattr(ev, 'dm%d' % n).Vall[:, :, j, b], v,
                          'recorded-command', 'DM%d image %d' % (n, j),
                          atol=1e-12)
        if j == 0:
            Im = Im + mp.sbp_weights[b]*im
    ctx.close(ev.Im, Im, 'recorded-unprobed-image')
    # ---- the estimate from these images
    mask = mp.Fend.corr.maskBool
    ref = copy.deepcopy(base[0])
    ref.dm_ind = np.array(used)
    for g, (st, b) in enumerate(groups):
        mode = int(np.nonzero((mp.jac.star_inds == st) & (mp.jac.sbp_inds == b))[0][0])
        ims = [s[4][mask] for s in shots[g*per:(g+1)*per]]
        E, ok = estimate(falco, ref, m, jac, ims, d[g], V0, b, st, mode)
        got = ev.Eest[:, mode]
        thr = np.abs(np.abs(E)**2 - mp.est.Ithreshold) > 1e-6*mp.est.Ithreshold
        E = np.where(np.abs(E)**2 > mp.est.Ithreshold, 0, E)
        sel = ok & thr
        ctx.stat('pixels_compared', int(np.sum(sel)))
        s = np.max(np.abs(E)) or 1.
        ctx.close(got[sel]/s, E[sel]/s, 'estimate', 'sub-band %d, star %d' % (b, st),
                  rtol=1e-5, atol=1e-6)
        ctx.close(ev.IincoEst[:, mode], ims[0] - np.abs(got)**2,
                  'incoherent-estimate', 'sub-band %d, star %d' % (b, st), rtol=1e-8)
    ctx.digest(np.array(ev.Eest))
    # ---- scheduled probe settings are those of this iteration
    if sp and not cfg['noise'] and not cfg['par']:
        mp2, ev2 = copy.deepcopy(base)
        it = cfg['Itr']
        for k, v in sp.items():
            if k != 'Inorm':
                setattr(mp2.est.probe, ATTR[k][1], v[it])
        s2 = acquire(falco, cfg, ctx, mp2, ev2, jac, cfg['seed'], False)
        for k in range(len(shots)):
            b, j = divmod(k, per)
            if j == 0:
                continue
            g = s2[k][w] - V0[w]
            if 'Inorm' in sp:
                i0 = np.max(shots[b*per][4][mask])
                unsched = min(np.sqrt(i0*1e-5), mp.est.InormProbeMax)
                g = g*np.sqrt(sp['Inorm'][it]/unsched)
            ctx.close(d[b, j - 1], g, 'scheduled-probe', 'image %d' % k, rtol=1e-6)
    # ---- alternating probe axes: the same again two iterations later only
    if m['probeAxis'] == 'alternate' and 'rect' not in m['estimator'] and \
            m['estimator'] != 'pwp-bp' and not cfg['noise'] and not sp and not cfg['par']:
        got = []
        for it in (cfg['Itr'] + 1, cfg['Itr'] + 2):
            mp2, ev2 = copy.deepcopy(base)
            ev2.Itr = it
            s2 = acquire(falco, cfg, ctx, mp2, ev2, jac, cfg['seed'], False)
            got.append(np.array([x[w] - V0[w] for x in s2[1:per]]))
        ctx.close(got[1], d[0], 'alternating-probe', 'two iterations later', rtol=1e-6,
                  atol=1e-9*scale)
        if np.max(np.abs(got[0] - d[0])) < 1e-6*scale:
            ctx.fail('alternating-probe', 'the same axis in the next iteration')


def estimate(falco, mp, m, jac, ims, d, V0, b, star, mode):
    """Independent statement of the batch estimator."""
    n = len(d)//2
    w = m['probeDM']
    I0 = ims[0]
    Ip = np.array(ims[1::2])
    Im = np.array(ims[2::2])
    z = (Ip - Im)/4
    amp = np.sqrt(np.maximum((Ip + Im)/2 - I0, 0))
    dm = getattr(mp, 'dm%d' % w)
    if m.get('flagUseJac'):
        G = getattr(jac, 'G%d' % w)[:, :, mode]
        dE = np.array([G @ d[2*j].ravel()[dm.act_ele] for j in range(n)])
        H = np.stack([dE.real, dE.imag], axis=2)
        good = np.ones((n, I0.size), dtype=bool)
        weak = ~good
    else:
        mv = falco.config.ModelVariables()
        mv.starIndex, mv.whichSource, mv.sbpIndex = star, 'star', b
        ph = []
        for j in range(n):
            E = []
            for s in (0, 1):
                dm.V = V0[w] + d[2*j + s]
                E.append(falco.model.compact(mp, mv)[mp.Fend.corr.maskBool])
            dm.V = V0[w]
            ph.append(E[0] - E[1])
        weak = np.abs(ph) < 1e-6*np.max(np.abs(ph))
        ph = np.angle(ph)
        H = amp[:, :, None]*np.stack([np.cos(ph), np.sin(ph)], axis=2)
        good = amp > 0
    E = np.zeros(I0.size, dtype=complex)
    ok = np.ones(I0.size, dtype=bool)
    for p in range(I0.size):
        g = good[:, p]
        if np.sum(g) < 2:
            continue
        h = H[g, p, :]
        s = np.linalg.svd(h, compute_uv=False)
        # the model has no phase to offer, or the probes are alike
        if s[1] < 1e-3*s[0] or np.any(weak[g, p]):
            ok[p] = False
            continue
        x = np.linalg.solve(h.T @ h, h.T @ z[g, p])
        E[p] = x[0] + 1j*x[1]
    return E, ok
