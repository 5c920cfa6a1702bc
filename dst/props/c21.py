"""Plots show the trial and never take part in it."""
import copy
import os
import pickle
import sys

import numpy as np

import faults as F
from props import common as C

ID = 'C21'
QUICK = 150
RULE = ('a run counts when a whole trial was repeated with plots and at least one '
        'plot of every kind it asks for was drawn, or a drawing call failed; distinct '
        'by (configuration, failing call, schedule hash)')
REAL = ('falco.plot, the plotting branches of falco.setup, falco.imaging and '
        'falco.est, falco.wfsc.loop and everything below it')
STUB = ('the drawing library (pyplot) is a recorder that can fail at any call, or in '
        'a part of the runs the real one without a screen')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 2, 3))
    m['initV'] = rng.choice([0., 5., 20.])
    m['initSeed'] = rng.randrange(1000)
    if m.get('layout') != 'proper' and m['coro'] != 'HLC' and rng.random() < 0.2:
        m['stars'] = 2
        m['useModel'] = False
    if rng.random() < 0.55:
        m['estimator'] = rng.choice(['pairwise-rect', 'pwp-bp'] if m.get('stars') else
                                    ['pairwise', 'pairwise-square', 'pairwise-rect'])
        m['Nwpsbp'] = 1
        m['probeDM'] = rng.choice([1, 2])
        m['Npairs'] = rng.choice([2, 3])
    if rng.random() < 0.5:
        m['noise'] = True
    if rng.random() < 0.3 and m['controller'] == 'gridsearchEFC':
        m['flagSVD'] = True
    if rng.random() < 0.3:
        m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
    if not m.get('stars') and m.get('layout') != 'proper' and rng.random() < 0.08:
        C.gen_ad(rng, m)
        m.pop('flagSVD', None)
    cfg = {'model': m, 'dark': rng.choice([0., 0., 0.5]), 'agg': rng.random() < 0.12,
           'par': rng.random() < 0.2, 'seed': rng.randrange(1 << 30)}
    if cfg['agg'] and m.get('flagSVD'):     # plots need 31 or more actuators
        for k in ('dm_ind', 'logGmin'):
            m.pop(k, None)
    if not cfg['agg'] and rng.random() < 0.45:
        cfg['fail'] = rng.random()
        cfg['exc'] = rng.choice(['runtime', 'os', 'value', 'type'])
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


EXC = {'runtime': F.InjectedFault, 'os': OSError, 'value': ValueError,
       'type': TypeError}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'par': False, 'dark': 0., 'agg': False})
    if 'fail' in cfg:
        c = dict(cfg)
        del c['fail']
        yield c
        if cfg['exc'] != 'runtime':
            yield dict(cfg, exc='runtime')


class Thing:
    """Any object of the drawing library."""

    def __init__(self, rec, name):
        self._rec, self._name = rec, name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Thing(self._rec, self._name + '.' + k)

    def __call__(self, *a, **k):
        return self._rec(self._name, a, k)


class Recorder:
    """A drawing library that keeps what it is given; one call may fail."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.n = 0
        self.names = {}
        self.shown = []
        self.fired = None

    def __call__(self, name, a, k):
        self.n += 1
        last = name.split('.')[-1]
        self.names[last] = self.names.get(last, 0) + 1
        if self.n == self.at:
            self.fired = name
            raise self.exc('drawing failed: ' + name)
        for x in a:
            if isinstance(x, np.ndarray) and x.dtype.kind in 'fiub' and x.size:
                self.shown.append(np.array(x, dtype=float))
        if last == 'subplots':
            r = list(a[:2]) + [1]*(2 - len(a[:2]))
            r[0] = k.get('nrows', r[0])
            r[1] = k.get('ncols', r[1])
            ax = np.empty(r, dtype=object)
            for i in range(r[0]):
                for j in range(r[1]):
                    ax[i, j] = Thing(self, 'ax')
            return Thing(self, 'fig'), np.squeeze(ax)
        return Thing(self, last)


def install(rec):
    import matplotlib.pyplot as plt
    t = Thing(rec, 'plt')
    for n, mod in list(sys.modules.items()):
        if (n == 'falco' or n.startswith('falco.')) and \
                getattr(mod, 'plt', None) is plt:
            mod.plt = t
    sys.modules['matplotlib.pyplot'] = t


def fields(falco, o, pre='', depth=0):
    """Every array and number of an object tree, copied."""
    r = {}
    if isinstance(o, falco.config.Object):
        d = dict(o.data)
        d.update({k: v for k, v in vars(o).items() if k != 'data'})
    else:
        d = dict(vars(o))
    for k, v in d.items():
        if isinstance(v, np.ndarray) and v.dtype.kind in 'biufc':
            r[pre + k] = v.copy()
        elif isinstance(v, (bool, int, float, complex, np.number)):
            r[pre + k] = np.array(v)
        elif isinstance(v, falco.config.Object) and depth < 4:
            r.update(fields(falco, v, pre + k + '.', depth + 1))
    return r


def trial(falco, cfg, ctx, mp, out, sub):
    """Run the loop; what every estimation and control step left behind."""
    steps = []
    est, ctrl, lp = falco.est.wrapper, falco.ctrl.wrapper, falco.wfsc.loop
    take = falco.imaging.get_sim_sbp_image

    def cam(mp_, si):       # sky- and dark-subtracted images have negative pixels
        im = take(mp_, si)
        return im - cfg['dark']*np.mean(im)

    def est_wrapper(mp_, ev, jac):
        r = est(mp_, ev, jac)
        steps.append({'V': [mp_.dm1.V.copy(), mp_.dm2.V.copy()],
                      'pin': [(np.array(d.pinned), np.array(d.Vpinned))
                              for d in (mp_.dm1, mp_.dm2)],
                      'ind': np.array(mp_.dm_ind), 'ev': fields(falco, ev)})
        return r

    def ctrl_wrapper(mp_, cvar, jac):
        r = ctrl(mp_, cvar, jac)
        steps[-1]['next'] = [mp_.dm1.V.copy(), mp_.dm2.V.copy()]
        return r
    falco.est.wrapper, falco.ctrl.wrapper = est_wrapper, ctrl_wrapper
    if cfg['dark']:
        falco.imaging.get_sim_sbp_image = cam
    np.random.seed(cfg['seed'] % (1 << 31))
    try:
        if cfg['par']:
            ctx.sim(lambda: lp(mp, out))
        else:
            lp(mp, out)
    finally:
        falco.est.wrapper, falco.ctrl.wrapper = est, ctrl
        falco.imaging.get_sim_sbp_image = take
    return steps


def compare(ctx, a, b, sig, rtol=1e-9):
    ctx.same(sorted(a), sorted(b), sig + ':names')
    for k in sorted(b):
        if k.split('.')[-1] in ('flagPlot', 'serialDate'):
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            ctx.fail(sig + ':' + k, 'shape %r, without plots %r' % (x.shape, y.shape))
        if not np.array_equal(np.isfinite(x), np.isfinite(y)):
            ctx.fail(sig + ':' + k, 'non-finite values differ')
        x, y = np.where(np.isfinite(y), x, 0), np.where(np.isfinite(y), y, 0)
        ctx.close(x, y, sig + ':' + k, k, rtol=rtol)


def displayed(rec, want, tol=1e-9):
    want = np.where(np.isfinite(want), want, -1e9)
    for x in rec.shown:
        if x.shape != want.shape:
            continue
        x = np.where(np.isfinite(x), x, -1e9)
        if np.max(np.abs(x - want)) <= tol*(1e-300 + np.max(np.abs(want))):
            return True
    return False


def run(cfg, ctx):
    import falco
    m = cfg['model']
    mp, out = C.build(ctx, m, parallel=cfg['par'])
    C.setup_ad(falco, mp)
    before = fields(falco, mp)
    ref = copy.deepcopy((mp, out))
    ref[0].flagPlot = False
    lightning = copy.deepcopy((mp, out))
    steps0 = trial(falco, cfg, ctx, ref[0], ref[1], 'a')
    state0 = np.random.rand(3)
    hist0 = C.histories(ref[1])
    # ---- setting up with plots gives the same model
    rec = None
    if not cfg['agg']:
        rec = Recorder()
        install(rec)
    mp, out = C.build(ctx, m, sub='p', parallel=cfg['par'], plot=True)
    C.setup_ad(falco, mp)
    compare(ctx, fields(falco, mp), before, 'model-set-up-with-plots')
    nsetup = rec.n if rec else 0
    # ---- so does the trial
    steps = trial(falco, cfg, ctx, mp, out, 'p')
    ctx.nontrivial = True
    ctx.same(len(steps), len(steps0), 'number-of-iterations')
    for it, (s, r) in enumerate(zip(steps, steps0)):
        what = 'iteration %d' % it
        for k in (0, 1):
            ctx.close(s['V'][k], r['V'][k], 'command-after-estimation',
                      'DM%d, %s' % (k + 1, what), rtol=1e-9)
            ctx.close(s['next'][k], r['next'][k], 'command', 'DM%d, %s' % (k + 1, what),
                      rtol=1e-9)
        compare(ctx, s['ev'], r['ev'], 'estimate')
    C.compare_histories(ctx, C.histories(out), hist0, 'history', rtol=1e-9)
    compare(ctx, fields(falco, mp), fields(falco, ref[0]), 'model-after-the-trial')
    ctx.same(np.random.rand(3), state0, 'random-numbers')
    ctx.digest(hist0['InormHist'], hist0['dm1.Vall'])
    if rec:
        ctx.stat('drawing calls', rec.n)
        ctx.stat('arrays shown', len(rec.shown))
        show(falco, cfg, ctx, mp, out, steps, rec)
    # ---- and showing the snippet afterwards
    fn = os.path.join(mp.path.brief, mp.runLabel + '_snippet.pkl')
    with open(fn, 'rb') as f:
        raw = f.read()
    rec2 = None
    if rec:
        rec2 = Recorder()
        sys.modules['matplotlib.pyplot']._rec = rec2
        for n, mod in list(sys.modules.items()):
            if isinstance(getattr(mod, 'plt', None), Thing):
                mod.plt._rec = rec2
    falco.plot.plot_trial_output_from_pickle(fn)
    with open(fn, 'rb') as f:
        ctx.same(f.read() == raw, True, 'snippet-changed-by-showing-it')
    saved = C.histories(pickle.loads(raw))
    if rec2:
        for k, x in (('InormHist', saved['InormHist']), ('thput', saved['thput']),
                     ('log10regHist', saved['log10regHist']),
                     ('dm1.Vall', saved['dm1.Vall'][:, :, -1]),
                     ('dm2.Vall', saved['dm2.Vall'][:, :, -1])):
            if not displayed(rec2, x):
                ctx.fail('record-not-shown:' + k, 'the plots of the snippet do not '
                         'show it')
    if 'fail' not in cfg or not rec.n:
        return
    # ---- a drawing call fails during the trial
    at = 1 + int(cfg['fail']*(rec.n - nsetup))
    bad = Recorder(at, EXC[cfg['exc']])
    for n, mod in list(sys.modules.items()):
        if isinstance(getattr(mod, 'plt', None), Thing):
            mod.plt._rec = bad
    mp, out = lightning
    mp.flagPlot = True
    seen = []
    est = falco.est.wrapper

    def spy(mp_, ev, jac):
        seen.append((mp_.dm1.V.copy(), mp_.dm2.V.copy()))
        return est(mp_, ev, jac)
    falco.est.wrapper = spy
    try:
        trial(falco, cfg, ctx, mp, out, 'f')
    except Exception as e:
        c, known = e, False
        while c is not None:
            known = known or 'drawing failed' in str(c)
            c = c.__cause__ or c.__context__
        if not known:
            raise
        failed = True
    else:
        failed = False
    finally:
        falco.est.wrapper = est
    if bad.fired is None:
        return
    ctx.fault('drawing call fails')
    ctx.key(at, bad.fired)
    if not failed:      # the failure was overcome: the trial is the same
        C.compare_histories(ctx, C.histories(out), hist0, 'history-after-failed-plot',
                            rtol=1e-9)
        return
    it = len(seen) - 1
    for k in (0, 1):
        V = getattr(mp, 'dm%d' % (k + 1)).V
        if it < 0:      # still setting up the first iteration
            want = [getattr(out, 'dm%d' % (k + 1)).Vall[:, :, 0]]
        else:
            want = [seen[it][k], steps0[it]['next'][k]]
        if not any(np.allclose(V, w, rtol=0, atol=1e-9*(1 + np.max(np.abs(w))))
                   for w in want):
            ctx.fail('command-left-by-failed-plot', 'DM%d, iteration %d, %s'
                     % (k + 1, it, bad.fired))
    if it >= 0:
        ctx.same(sorted(int(x) for x in mp.dm_ind),
                 sorted(int(x) for x in steps0[it]['ind']),
                 'dm-selection-left-by-failed-plot', bad.fired)


def show(falco, cfg, ctx, mp, out, steps, rec):
    """What was displayed is what was measured, commanded and recorded."""
    with np.errstate(all='ignore'):
        for it, s in enumerate(steps):
            what = 'iteration %d' % it
            if not displayed(rec, np.log10(s['ev']['Im'])) and \
                    not displayed(rec, s['ev']['Im']):
                ctx.fail('image-not-shown', what)
            E = s['ev']['Eest']
            if it > 0:
                dE = E - steps[it - 1]['ev']['Eest']
                for b in range(mp.Nsbp):
                    i = int(np.nonzero((mp.jac.sbp_inds == b) & (mp.jac.zern_inds == 1)
                                       & (mp.jac.star_inds == 0))[0][0])
                    im = np.zeros(mp.Fend.corr.maskBool.shape)
                    im[mp.Fend.corr.maskBool] = np.abs(dE[:, i])
                    if not displayed(rec, im):
                        ctx.fail('change-not-shown', 'sub-band %d, %s' % (b, what))
            if 'imageArray' in s['ev'] and s['ev']['imageArray'].shape[2] > 1 and \
                    not cfg['model'].get('stars') :
                a = s['ev']['imageArray']
                for b in range(a.shape[3]):
                    for j in range(1, a.shape[2]):
                        im = a[:, :, j, b]
                        if not displayed(rec, np.log10(np.maximum(im, 0))):
                            ctx.fail('probed-image-not-shown', 'image %d, sub-band %d, %s'
                                     % (j, b, what))
            # DM surfaces of the commands of this iteration
            for k in (1, 2):
                if k not in s['ind']:
                    continue
                d = copy.deepcopy(getattr(mp, 'dm%d' % k))
                d.V = s['V'][k - 1].copy()
                d.pinned, d.Vpinned = s['pin'][k - 1]   # grows with the rails
                S = falco.dm.gen_surf_from_act(d, d.compact.dx, d.compact.Ndm)
                if not displayed(rec, 1e9*S, 1e-6) and not displayed(rec, S, 1e-6):
                    ctx.fail('surface-not-shown', 'DM%d, %s' % (k, what))
