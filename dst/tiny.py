"""Tiny but complete FALCO coronagraph configurations for simulated runs."""
import os
import numpy as np

INF_FN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'inf_sim.fits')


def _disc(n, diam, iddiam=0.0):
    """Pixel-centred anti-aliased-free annulus on an n x n array."""
    ax = np.arange(n) - n // 2
    r = np.hypot(*np.meshgrid(ax, ax)) * 2.0
    return ((r <= diam) & (r >= iddiam)).astype(float)


DEFAULTS = dict(
    coro='LC', layout='fourier', Nsbp=1, Nwpsbp=1, fracBW=0.10, Nact=6,
    dm_ind=(1, 2), estimator='perfect', controller='gridsearchEFC',
    Nitr=2, Nthreads=2, flagParallel=False, zerns=(1,), pol_conds=None,
    stars=1, noise=False, nbeam=12, useModel=False, log10reg=(-4., -3., -2.),
    dmfac=(1.,), relin=None, logGmin=-6., tied1=None, tied2=None, dead1=None,
    dead2=None, pinned1=None, pinned2=None, Vmax=1000., sched=None,
    evalZ=(2, 3), Rsens=((2., 3.), (3., 4.)), probeDM=1, probeAxis='alternate',
    flagUseJac=False, Npairs=2, minimizeNI=False, flagSVD=False,
    initV=0.0, initSeed=7, fov=4., pupilE=0.0, diffdm=False, rot=True,
    fullres=None, dm1stop=False, dm2stop=False, Wspatial=None,
    nact2=None, zstars=None, thput='HMI', jacstars=None, yaml=False,
    label=None, centering='pixel', orient1=None, orient2=None, Hmin=None,
    plot=False, geom=False, sides='leftright', relays=(1, 1, 1, 0), bias=0., vtoh=0.,
)


def build(falco, path, **over):
    """Return (mp, out) for a fleshed-out tiny model.  path: scratch dict."""
    c = dict(DEFAULTS)
    unknown = set(over) - set(c)
    if unknown:
        raise KeyError(unknown)
    c.update(over)
    mp = falco.config.ModelParameters()
    mp.SeriesNum = 1
    mp.TrialNum = 1
    mp.path = falco.config.Object()
    mp.path.falco = path['falco']
    mp.path.brief = path['brief']
    mp.path.jac = path['jac']
    mp.path.ws = path['ws']
    mp.runLabel = c['label'] or path.get('label', 'sim_trial')
    mp.flagParallel = c['flagParallel']
    mp.Nthreads = c['Nthreads']
    mp.flagPlot = c['plot']
    mp.centering = c['centering']
    mp.thput_metric = c['thput']
    mp.thput_radius = 0.7
    mp.thput_eval_x = 3
    mp.thput_eval_y = 0
    mp.source_x_offset_norm = 3
    mp.source_y_offset_norm = 0
    mp.lambda0 = 575e-9
    mp.fracBW = c['fracBW']
    mp.Nsbp = c['Nsbp']
    mp.Nwpsbp = c['Nwpsbp']
    mp.estimator = c['estimator']
    mp.est = falco.config.Object()
    mp.est.flagUseJac = c['flagUseJac']
    mp.est.probe = falco.config.Probe()
    mp.est.probe.Npairs = c['Npairs']
    mp.est.probe.whichDM = c['probeDM']
    mp.est.probe.radius = 3
    mp.est.probe.xOffset = 0
    mp.est.probe.yOffset = 0
    mp.est.probe.axis = c['probeAxis']
    mp.est.probe.gainFudge = 1
    mp.est.probe.xiOffset = 3.
    mp.est.probe.etaOffset = 0.
    mp.est.probe.width = 4.
    mp.est.probe.height = 6.
    mp.ctrl = falco.config.Object()
    mp.ctrl.flagUseModel = c['useModel']
    mp.logGmin = c['logGmin']
    mp.jac = falco.config.Object()
    mp.jac.zerns = np.array(c['zerns'])
    mp.jac.Zcoef = 1e-9*np.ones(np.size(mp.jac.zerns))
    mp.jac.minimizeNI = c['minimizeNI']
    mp.eval = falco.config.Object()
    mp.eval.indsZnoll = np.array(c['evalZ'])
    mp.eval.Rsens = np.array(c['Rsens'])
    mp.ctrl.log10regVec = np.array(c['log10reg'])
    mp.ctrl.dmfacVec = np.array(c['dmfac'])
    mp.WspatialDef = [] if c['Wspatial'] is None else np.array(c['Wspatial'])
    mp.flagSVD = c['flagSVD']
    mp.dm1.weight = 1.
    mp.dm2.weight = 1.
    mp.controller = c['controller']
    mp.Nitr = c['Nitr']
    mp.relinItrVec = np.arange(mp.Nitr) if c['relin'] is None else np.array(c['relin'])
    mp.dm_ind = list(c['dm_ind'])
    if c["sched"] is not None:
        sched = np.array([[r[0], complex(*r[1]), r[2], r[3], r[4]] for r in c["sched"]], dtype=complex)
        (mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec,
         mp.ctrl.log10regSchedIn, mp.dm_ind_sched) = \
            falco.ctrl.efc_schedule_generator(sched)
    Nact = c['Nact']
    Nact2 = c['nact2'] or Nact
    for dm, Nact in ((mp.dm2, Nact2), (mp.dm1, Nact)):
        dm.inf_fn = INF_FN
        dm.dm_spacing = 1.0e-3
        dm.inf_sign = '+'
        dm.Nact = Nact
        dm.VtoH = 1e-9*np.ones((Nact, Nact))
        dm.xtilt = 0
        dm.ytilt = 0
        dm.zrot = 0
        dm.xc = Nact/2 - 0.5
        dm.yc = Nact/2 - 0.5
        dm.edgeBuffer = 1
        dm.Dstop = 50e-3
        dm.Vmax = c['Vmax']
        dm.Vmin = 0.
        dm.useDifferentiableModel = c['diffdm']
        if c['bias']:       # as a part of the voltage range
            r = np.random.RandomState(31 + Nact)
            dm.biasMap = c['Vmax']*(0.5 + c['bias']*(r.rand(Nact, Nact) - 0.5))
        if c['vtoh']:
            r = np.random.RandomState(37 + Nact)
            dm.VtoH = 1e-9*(1 + c['vtoh']*r.rand(Nact, Nact))
        if c['geom']:
            dm.xtilt, dm.ytilt, dm.zrot, dm.xc = 4., 9.6, -3., dm.xc + 0.3
            dm.flagZYX = c['geom'] == 'zyx'
        if c['Hmin']:
            dm.HminStep, dm.HminStepMethod = c['Hmin']
    for dm, t in ((mp.dm1, 'orient1'), (mp.dm2, 'orient2')):
        if c[t] is not None:
            dm.orientation = c[t]
    for dm, t, d, p in ((mp.dm1, 'tied1', 'dead1', 'pinned1'),
                        (mp.dm2, 'tied2', 'dead2', 'pinned2')):
        if c[t] is not None:
            dm.tied = np.array(c[t], dtype=int).reshape(-1, 2)
        if c[d] is not None:
            dm.dead = list(c[d])
        if c[p] is not None:
            dm.pinned = np.array([x[0] for x in c[p]], dtype=float)
            dm.Vpinned = np.array([x[1] for x in c[p]], dtype=float)
    for dm in (mp.dm1, mp.dm2):
        dm.full = falco.config.Object()
        dm.compact = falco.config.Object()
    mp.flagDM1stop = c['dm1stop']
    mp.flagDM2stop = c['dm2stop']
    mp.d_P2_dm1 = 0
    mp.d_dm1_dm2 = 0.1
    mp.flagSim = True
    mp.layout = c['layout']
    mp.coro = c['coro']
    mp.Fend = falco.config.Object()
    mp.Fend.res = 2.0
    mp.Fend.FOV = c['fov']
    mp.Fend.corr = falco.config.Object()
    mp.Fend.corr.Rin = 1.5
    mp.Fend.corr.Rout = 4.0
    mp.Fend.corr.ang = 180
    mp.Fend.score = falco.config.Object()
    mp.Fend.score.Rin = 2.0
    mp.Fend.score.Rout = 3.5
    mp.Fend.score.ang = 180
    mp.Fend.sides = c['sides']
    mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.res = 4
    mp.fl = 1.
    mp.P2.D = (Nact-1)*1.0e-3
    mp.P3.D = mp.P2.D
    mp.P4.D = mp.P2.D
    nb = c['nbeam']
    nfull = nb if c['fullres'] is None else c['fullres']
    mp.P1.compact.Nbeam = nb
    mp.P4.compact.Nbeam = nb
    mp.P1.full.Nbeam = nfull
    mp.P4.full.Nbeam = nfull
    mp.flagRotation = c['rot']
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4, mp.NrelayFend = c['relays']
    mp.full = falco.config.Object()
    mp.compact = falco.config.Object()
    mp.F3.compact.res = 2
    mp.F3.full.res = 3
    mp.whichPupil = 'SIMPLE'
    mp.P1.IDnorm = 0.2
    mp.P1.ODnorm = 1.0
    mp.P1.D = 2.4
    even = lambda n: int(2*np.ceil((n+2)/2))
    vort = c['coro'].lower() in ('vortex', 'vc', 'avc')

    def arr(n):
        if vort or c['layout'] == 'proper':
            return 2**int(np.ceil(np.log2(n+1)))
        return even(n)
    mp.P1.full.mask = _disc(arr(nfull), nfull, 0.2*nfull)
    mp.P1.compact.mask = _disc(arr(nb), nb, 0.2*nb)
    mp.flagApod = c['coro'].upper() in ('FLC', 'SPLC', 'VORTEX', 'VC', 'AVC')
    if mp.flagApod:
        mp.P3.full.mask = _disc(arr(nfull), 0.9*nfull, 0.25*nfull if not vort else 0.)
        mp.P3.compact.mask = _disc(arr(nb), 0.9*nb, 0.25*nb if not vort else 0.)
    mp.P4.full.mask = _disc(arr(nfull), 0.8*nfull, 0.4*nfull if not vort else 0.)
    mp.P4.compact.mask = _disc(arr(nb), 0.8*nb, 0.4*nb if not vort else 0.)
    mp.P4.compact.maskAtP1res = mp.P4.compact.mask.copy()
    mp.F3.Rin = 2.0
    mp.F3.RinA = 2.0
    mp.F3.Rout = 6.0 if c['coro'].upper() in ('FLC', 'SPLC') else np.inf
    mp.F3.ang = 180
    mp.FPMampFac = 0
    if vort:
        mp.F3.VortexCharge = 4
    elif c['coro'].upper() != 'HLC':
        for which in ('full', 'compact'):
            mod = getattr(mp.F3, which)
            mod.mask = falco.mask.gen_annular_fpm(dict(
                rhoInner=mp.F3.Rin, rhoOuter=mp.F3.Rout, centering=c['centering'],
                FPMampFac=0., pixresFPM=mod.res))
    else:
        # wavelength-dependent complex occulter given as a cube of masks
        rng = np.random.RandomState(5)
        nlam = c['Nsbp']*c['Nwpsbp'] + 1
        for which, nl in (('full', nlam), ('compact', c['Nsbp'])):
            mod = getattr(mp.F3, which)
            spot = 1. - falco.mask.gen_annular_fpm(dict(
                rhoInner=2.0, rhoOuter=np.inf, centering=c['centering'],
                FPMampFac=0., pixresFPM=mod.res))
            spot = np.pad(spot, 2)
            cube = np.zeros(spot.shape + (nl,), dtype=complex)
            for k in range(nl):
                cube[:, :, k] = (1. - spot) + spot*0.5*np.exp(1j*(0.3 + 1.1*k))
            getattr(mp, which).fpmCube = cube
            mod.mask = cube[:, :, 0]
            mod.Nxi = spot.shape[1]
            mod.Neta = spot.shape[0]
        mp.dm8.V = np.zeros(1)
        mp.dm9.V = np.zeros(1)
    if c['stars'] > 1:
        n = c['stars']
        mp.star = falco.config.Object()
        mp.star.count = n
        mp.star.xiOffsetVec = np.array([0., 1.7, -2.3][:n])
        mp.star.etaOffsetVec = np.array([0., 0.9, 1.1][:n])
        mp.star.weights = np.array([1., 0.4, 0.2][:n])
        mp.compact.star = falco.config.Object()
        mp.compact.star.count = n
        mp.compact.star.xiOffsetVec = mp.star.xiOffsetVec.copy()
        mp.compact.star.etaOffsetVec = mp.star.etaOffsetVec.copy()
        mp.compact.star.weights = mp.star.weights.copy()
        mp.jac.star = falco.config.Object()
        mp.jac.star.weights = np.ones(n) if c['jacstars'] is None else \
            np.array(c['jacstars'][:n])
        # a probed region for each star
        p = mp.est.probe
        p.xiOffset = np.array([3., -2.1, 1.7][:n])
        p.etaOffset = np.array([0., 1., -1.][:n])
        p.width = np.array([4., 3.5, 5.][:n])
        p.height = np.array([6., 5., 4.][:n])
        p.gainFudge = np.array([1., 1.3, 0.8][:n])
    if c['pol_conds'] is not None:
        mp.full.pol_conds = list(c['pol_conds'])
    if c['noise']:
        mp.flagImageNoise = True
        mp.detector = falco.config.Object()
        mp.detector.peakFluxVec = 1e6*np.ones(mp.Nsbp)
    if c['layout'] == 'proper':
        mp.full.prescription = 'simpresc'
        mp.full.sim_nxi = int(2*np.ceil((1 + 2*c['fov']*2)/2))
        mp.full.sim_res = 2.0
        mp.full.sim_lambda0 = mp.lambda0
        mp.full.dm1FlatMap = np.zeros((Nact, Nact))
        mp.full.dm2FlatMap = np.zeros((Nact2, Nact2))
    if c['initV']:
        rng = np.random.RandomState(c['initSeed'])
        mp.dm1.V = c['initV']*rng.randn(Nact, Nact)
        mp.dm2.V = c['initV']*rng.randn(Nact2, Nact2)
    if c['pupilE']:
        # a wavelength-dependent aberration, so every wavelength is distinct
        rng = np.random.RandomState(11)
        nf = mp.P1.full.mask.shape[0]
        ph = rng.randn(nf, nf)
        mp.P1.full.E = np.zeros((nf, nf, mp.Nwpsbp, mp.Nsbp), dtype=complex)
        # a function of wavelength: sub-bands share their edge wavelengths
        dlam = mp.fracBW/mp.Nsbp
        for s in range(mp.Nsbp):
            cen = (s - (mp.Nsbp-1)/2)*dlam
            for w in range(mp.Nwpsbp):
                off = cen
                if mp.Nwpsbp > 1:
                    off = cen + (w - (mp.Nwpsbp-1)/2)*dlam/(
                        mp.Nwpsbp-1 if mp.Nsbp > 1 else mp.Nwpsbp)
                mp.P1.full.E[:, :, w, s] = np.exp(
                    1j*c['pupilE']*(1 + 5*off)*ph)
    if c['yaml']:
        mp = via_yaml(falco, mp)
    out = falco.setup.flesh_out_workspace(mp)
    return mp, out


# values that YAML files usually give as expressions of others
EXPRS = {
    'P3.D': 'mp.P2.D', 'P4.D': 'mp.P2.D', 'P1.full.Nbeam': 'mp.P1.compact.Nbeam',
    'P4.full.Nbeam': 'mp.P1.full.Nbeam', 'P4.compact.Nbeam': 'mp.P1.compact.Nbeam',
    'dm1.xc': 'mp.dm1.Nact/2 - 0.5', 'dm1.yc': 'mp.dm1.xc',
    'dm2.xc': 'mp.dm1.xc', 'dm2.yc': 'mp.dm2.xc', 'dm2.Nact': 'mp.dm1.Nact',
    'dm1.VtoH': '1e-9*np.ones((mp.dm1.Nact, mp.dm1.Nact))',
    'dm2.VtoH': '1*mp.dm1.VtoH',
    'P2.D': '(mp.dm1.Nact - 1)*mp.dm1.dm_spacing',
    'jac.Zcoef': '1e-9*np.ones(np.size(mp.jac.zerns))',
    'relinItrVec': 'np.arange(mp.Nitr)', 'F3.RinA': 'mp.F3.Rin',
    'compact.star.weights': '1*mp.star.weights',
}


def via_yaml(falco, mp):
    """The same configuration, as far as possible read from YAML text.

    Long arrays and 2-D maps are set afterwards, as the examples do."""
    later = []
    same = {}

    def get(path):
        o = mp
        for k in path.split('.'):
            o = getattr(o, k)
        return o

    def items(o):
        d = dict(o.data)
        d.update({k: v for k, v in vars(o).items() if k != 'data'})
        return d

    def scalar(v):
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, (int, np.integer)):
            return '%d' % v
        if isinstance(v, (float, np.floating)):
            if np.isinf(v):
                return '!eval np.inf'
            return '!eval %r' % float(v)
        if isinstance(v, str):
            return "'%s'" % v
        return None

    def emit(o, path, ind):
        lines = []
        for k, v in sorted(items(o).items(), key=lambda t: t[0]):
            p = path + k
            pad = ' '*ind + k + ':'
            if p in EXPRS:
                try:
                    w = eval(EXPRS[p], {'np': np, 'mp': mp})
                except AttributeError:
                    w = None
                if w is not None and np.array_equal(w, v):
                    lines.append(pad + ' !eval ' + EXPRS[p])
                    same[p] = True
                    continue
            if isinstance(v, falco.config.Object):
                sub = emit(v, p + '.', ind + 2)
                tag = ' !Probe' if type(v) is falco.config.Probe else ''
                lines += [pad + tag + ('' if sub else ' {}')] + sub
            elif isinstance(v, np.ndarray) and v.size <= 20 and v.ndim <= 2 \
                    and v.dtype.kind in 'iufb' and v.size:
                lines.append(pad + ' !eval np.array(%r)' % (v.tolist(),))
            elif isinstance(v, list) and all(isinstance(x, (int, float)) for x in v):
                lines.append(pad + ' %r' % (v,))
            elif scalar(v) is not None:
                lines.append(pad + ' ' + scalar(v))
            else:
                later.append((p, v))
        return lines
    text = '\n'.join(emit(mp, '', 0)) + '\n'
    new = falco.config.ModelParameters.from_yaml(text)
    for p, v in later:
        o = new
        *up, k = p.split('.')
        for u in up:
            o = getattr(o, u)
        setattr(o, k, v)
    return new
