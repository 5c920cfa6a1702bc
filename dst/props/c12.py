"""The recorded histories are those of the exposures and commands of the trial."""
import copy

import numpy as np
from props import common as C

ID = 'C12'
QUICK = 130
RULE = ('a run counts when a whole trial was recorded exposure by exposure at the '
        'camera seam; distinct by (configuration, disturbances, schedule hash)')
REAL = 'falco.wfsc.loop, falco.ctrl, falco.est, falco.imaging, falco.model, falco.dm'
STUB = ('the testbed camera (public seam get_testbed_sbp_image) is the simulated '
        'full model plus seeded light, noise and drift')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 3),
                         coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'))
    m['initV'] = rng.choice([0., 5., 20.])
    m['initSeed'] = rng.randrange(1000)
    m['Nwpsbp'] = 1
    m['Nsbp'] = rng.choice([1, 2, 3]) if m['coro'] != 'HLC' else 2
    r = rng.random()
    if r < 0.65:
        m['estimator'] = rng.choice(['pairwise', 'pairwise-rect', 'pwp-bp'])
        m['probeDM'] = rng.choice([1, 2])
        m['Npairs'] = rng.choice([2, 2, 3])
    if rng.random() < 0.15:
        C.gen_ad(rng, m)
    elif m['coro'] != 'HLC' and rng.random() < 0.25:
        m['stars'] = rng.choice([2, 2, 3])
        m['jacstars'] = rng.choice([[1., 0.5, 2.], [1., 1., 1.], [0.3, 1., 1.]])
        if 'estimator' in m:
            m['estimator'] = rng.choice(['pairwise-rect', 'pwp-bp'])
    if rng.random() < 0.15 and m['controller'] == 'gridsearchEFC':
        m['flagSVD'] = True
    cfg = {'model': m, 'par': rng.random() < 0.2,
           'light': rng.choice([0., 0.2, 1.]), 'noise': rng.choice([0., 0.02]),
           'drift': rng.choice([0., 0., 0.3]), 'seed': rng.randrange(1 << 30)}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'light': 0., 'noise': 0.,
                                   'drift': 0.})


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, out = C.build(ctx, m, parallel=cfg['par'])
    C.setup_ad(falco, mp)
    rng = np.random.RandomState(cfg['seed'])
    take = C.camera(falco)
    shots = []

    def cam(mp_, si):
        im = take(mp_, si)
        s = np.mean(im)
        im = im + s*(cfg['light'] + cfg['drift']*len(shots)/20.)
        if cfg['noise']:
            im = im + cfg['noise']*s*rng.randn(*im.shape)
        shots.append((int(out.Itr), int(si), mp_.dm1.V.copy(), mp_.dm2.V.copy(),
                      im.copy(), [int(k) for k in mp_.dm_ind]))
        return im
    C.install_camera(falco, mp, cam)
    seen = []       # what was estimated and chosen, by iteration
    est, ctrl, prop = falco.est.wrapper, falco.ctrl.wrapper, falco.imaging.calc_thput

    def thput():
        c = copy.deepcopy(mp)
        c.flagParallel = False
        return np.max(prop(c)[0])

    def est_wrapper(mp_, ev, jac):
        r = est(mp_, ev, jac)
        seen.append({'I00': np.array(mp_.Fend.compact.I00),
                     'dms': np.array(mp_.dm_ind),
                     'pin': [(np.array(d.pinned), np.array(d.Vpinned))
                             for d in (mp_.dm1, mp_.dm2)], 'E': np.array(ev.Eest), 'Iinco': np.array(ev.IincoEst), 'jac': jac,
                     'thput': thput(), 'weights': np.array(mp_.jac.sbp_inds)})
        return r

    def ctrl_wrapper(mp_, cvar, jac):
        r = ctrl(mp_, cvar, jac)
        seen[-1]['reg'] = cvar.log10regUsed
        return r
    falco.est.wrapper, falco.ctrl.wrapper = est_wrapper, ctrl_wrapper
    if cfg['par']:
        ctx.sim(lambda: falco.wfsc.loop(mp, out))
    else:
        falco.wfsc.loop(mp, out)
    ctx.nontrivial = True
    corr, score = mp.Fend.corr.maskBool, mp.Fend.score.maskBool
    w = np.ravel(mp.sbp_weights)
    pw = m.get('estimator', 'perfect') != 'perfect'
    n = mp.Nitr
    nst = m.get('stars', 1)
    ctx.digest(np.array(out.InormHist))
    ctx.stat('exposures', len(shots))
    for it in range(n):
        mine = [s for s in shots if s[0] == it]
        first = {}
        for s in mine:
            first.setdefault(s[1], s)
        what = 'iteration %d' % it
        ctx.same(sorted(first), list(range(mp.Nsbp)), 'sub-band-not-imaged', what)
        for b, s in first.items():
            for k in (1, 2):
                ctx.close(getattr(out, 'dm%d' % k).Vall[:, :, it], s[1 + k],
                          'recorded-command', 'DM%d, %s' % (k, what), atol=1e-9)
        unprobed = sum(w[b]*first[b][4] for b in first)
        for name, mask in (('IrawCorrHist', corr), ('IrawScoreHist', score),
                           ('InormHist', corr)):
            ctx.close(getattr(out, name)[it], np.mean(unprobed[mask]),
                      'recorded-intensity:' + name, what, rtol=1e-9)
        if pw:
            for b in first:
                im = first[b][4]
                for name, mask in (('normIntMeasCorr', corr),
                                   ('normIntMeasScore', score)):
                    ctx.close(getattr(out, name)[it, b], np.mean(im[mask]),
                              'recorded-sub-band-intensity:' + name, what, rtol=1e-9)
                for a in ('Corr', 'Score'):
                    if nst > 1:
                        break
                    ctx.close(getattr(out, 'normIntMod' + a)[it, b]
                              + getattr(out, 'normIntUnmod' + a)[it, b],
                              getattr(out, 'normIntMeas' + a)[it, b],
                              'parts-do-not-add-up:normInt' + a, what, rtol=1e-8)
            for a in ('Corr', 'Score') if nst == 1 else ():
                ctx.close(getattr(out, 'Iest%sHist' % a)[it]
                          + getattr(out, 'Iinco%sHist' % a)[it],
                          getattr(out, 'Iraw%sHist' % a)[it],
                          'parts-do-not-add-up:I' + a, what, rtol=1e-8)
        dms = mine[-1][5] if not pw else None
        for k in (1, 2):
            o = getattr(out, 'dm%d' % k)
            if dms is not None and k in dms:
                ctx.close(o.Vpv[it], np.ptp(o.Vall[:, :, it + 1]),
                          'recorded-peak-to-valley', 'DM%d, %s' % (k, what), rtol=1e-9)
        # the image that closes the iteration is one of its trial images
        if not m['useModel']:
            trials = mine[mp.Nsbp*(nst*(1 + 2*m.get('Npairs', 2)) if pw else 1):]
            vals = []
            for t in range(len(trials)//mp.Nsbp):
                g = trials[t*mp.Nsbp:(t + 1)*mp.Nsbp]
                im = sum(w[s[1]]*s[4] for s in g)
                vals.append(np.mean(im[corr]))
            if m['controller'] == 'gridsearchEFC' and it == n - 1:
                ctx.close(out.InormHist[n], min(vals), 'final-intensity', what,
                          rtol=1e-9)
            elif it == n - 1:
                if min(abs(v - out.InormHist[n]) for v in vals) > 1e-9*max(vals):
                    ctx.fail('final-intensity', 'the last recorded intensity %g is '
                             'not that of a trial image' % out.InormHist[n])
    for k in (1, 2):
        ctx.close(getattr(out, 'dm%d' % k).Vall[:, :, n],
                  getattr(mp, 'dm%d' % k).V, 'final-command', 'DM%d' % k, atol=1e-9)
    # ---- estimates, regularizations, throughput
    ctx.same(len(seen), n, 'number-of-estimates')
    corr_of = np.zeros(corr.shape)
    for it, s in enumerate(seen):
        what = 'iteration %d' % it
        parts = {'Mod': np.abs(s['E'])**2, 'Unmod': s['Iinco']}
        for name, v in parts.items():
            total = 0
            for i in range(v.shape[1]):
                im = corr_of.copy()
                im[corr] = v[:, i]
                for a, mask in (('Corr', corr), ('Score', score & corr)):
                    ctx.close(getattr(out, 'normInt' + name + a)[it, i],
                              np.mean(im[mask]), 'recorded-estimate:' + name + a,
                              'mode %d, %s' % (i, what), rtol=1e-9)
                total = total + w[s['weights'][i]]*im
            old = {'Mod': 'Iest', 'Unmod': 'Iinco'}[name]
            for a, mask in (('Corr', corr), ('Score', score)):
                ctx.close(getattr(out, old + a + 'Hist')[it], np.mean(total[mask]),
                          'recorded-estimate:' + old + a, what, rtol=1e-9)
        ctx.close(out.log10regHist[it], s['reg'], 'recorded-regularization', what,
                  atol=1e-12)
        if m['controller'] == 'gridsearchEFC' and \
                min(abs(r - s['reg']) for r in mp.ctrl.log10regVec) > 1e-12:
            ctx.fail('recorded-regularization', '%s: %r was not tried' % (what, s['reg']))
        ctx.close(out.thput[it], s['thput'], 'recorded-throughput', what, rtol=1e-9)
    ctx.close(out.thput[n], thput(), 'recorded-throughput', 'at the end', rtol=1e-9)
    # ---- measured and modelled change of the field
    model, plain = [], None
    for it in range(n):
        c = copy.deepcopy(mp)
        c.flagParallel = False
        c.dm_ind = seen[it]['dms']
        mv = falco.config.ModelVariables()
        mv.whichSource, mv.starIndex = 'star', 0
        for k in (1, 2):
            d = getattr(c, 'dm%d' % k)
            d.V = getattr(out, 'dm%d' % k).Vall[:, :, it].copy()
            d.pinned, d.Vpinned = seen[it]['pin'][k - 1]    # grows with the rails
        E = []
        for b in range(mp.Nsbp):
            mv.sbpIndex = b
            # every iteration has its own normalization
            E.append(falco.model.compact(c, mv)[corr] *
                     np.sqrt(c.Fend.compact.I00[b]/seen[it]['I00'][b]))
        model.append(E)
    for it in range(1, n):
        for b in range(mp.Nsbp):
            i = int(np.nonzero((mp.jac.sbp_inds == b) & (mp.jac.star_inds == 0))[0][0])
            dm = seen[it]['E'][:, i] - seen[it - 1]['E'][:, i]
            ds = model[it][b] - model[it - 1][b]
            sel = dm != 0
            dm, ds = dm[sel], ds[sel]
            if not sel.any() or np.sum(np.abs(ds)**2) < 1e-12*np.sum(np.abs(model[it][b])**2):
                continue
            got = (out.complexProjection[it - 1, b], out.complexCorrelation[it - 1, b])
            what = 'iteration %d, sub-band %d' % (it, b)
            want = changes(ds, dm)
            if np.allclose(got, want, rtol=1e-3):
                continue
            # the products of the code leave out the conjugation (known)
            p = np.abs(np.sum(ds*dm))
            q = np.abs(np.sum(ds*ds))
            r = np.abs(np.sum(dm*dm))
            if not min(q, r) > 1e-3*np.sum(np.abs(ds)**2):
                continue
            ctx.close(got[0], p/q, 'recorded-projection', what, rtol=1e-3)
            ctx.close(got[1], p/np.sqrt(q*r), 'recorded-correlation', what, rtol=1e-3)
            plain = plain or '%s: projection and correlation %g %g, of the fields %g %g' \
                % ((what,) + got + want)
    if m.get('flagSVD'):
        ctx.same(len(out.sm), n, 'number-of-spectra')
        for it, s in enumerate(seen):
            if it in [int(x) for x in mp.relinItrVec] or it == 0:
                G = np.concatenate([np.asarray(s['jac'].G1), np.asarray(s['jac'].G2)], 1)
                G = np.concatenate(list(np.moveaxis(G, 2, 0)), 0)
                G = np.concatenate([G.real, G.imag])
                ctx.close(out.sm[it], np.linalg.svd(G, compute_uv=False),
                          'recorded-spectrum', 'iteration %d' % it, rtol=1e-6, atol=1e-9)
    if plain:       # last, so that nothing else is hidden
        ctx.fail('projection-without-conjugate', plain)


def changes(ds, dm):
    """Projection and correlation of two changes of the field."""
    p = np.abs(np.vdot(ds, dm))
    q = np.vdot(ds, ds).real
    r = np.vdot(dm, dm).real
    return p/q, p/np.sqrt(q*r)
