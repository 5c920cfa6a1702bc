"""FITS files and error maps are complete, read back and reused."""
import contextlib
import io
import os
import shutil

import numpy as np

from props import common as C
import faults as F
import sim as S

ID = 'C20'
QUICK = 220
RULE = ('a run counts when several processes used the same files, or a fault '
        'happened; distinct by (operations, schedule, fault)')
REAL = ('falco.proper: prop_fits_write, prop_fits_read, prop_writemap, '
        'prop_errormap, prop_readmap, prop_resamplemap, prop_psd_errormap; astropy')
STUB = ('processes are simulated (scheduler-controlled interleaving at every '
        'file operation); simulated disk below the Python file API')

MODES = ('WAVEFRONT', 'MIRROR_SURFACE', 'AMPLITUDE')
N = 32
DIAM = 0.04
DX = 2*DIAM/N       # sampling of the wavefront
# ways to apply a map: arguments; what they mean for the map, shifts in pixels
WAYS = {
    'plain': ({}, lambda b: b),
    'nm': (dict(NM=True, MULTIPLY=3e8), lambda b: 0.3*b),
    'microns': (dict(MICRONS=True, MULTIPLY=-2e6), lambda b: -2*b),
    'multiply': (dict(MULTIPLY=0.5), lambda b: 0.5*b),
    'x': (dict(xshift=2*DX), lambda b: np.roll(b, 2, 1)),
    'y': (dict(yshift=3*DX), lambda b: np.roll(b, 3, 0)),
    'xy': (dict(xshift=-DX, yshift=2*DX), lambda b: np.roll(b, (2, -1), (0, 1))),
    'center': (dict(XC_MAP=N//2 + 2, YC_MAP=N//2 - 1), lambda b: np.roll(b, (1, -2), (0, 1))),
}


def gen(rng, i):
    np_ = rng.choice([1, 2, 2, 3])
    names = ['a.fits', 'b.fits', 'c.fits.gz'][:rng.choice([1, 2, 3])]
    maps = ['m.fits', 'n.fits'][:rng.choice([1, 2])]
    procs = []
    uid = 0
    for p in range(np_):
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            r = rng.random()
            uid += 1
            if r < 0.25:
                ops.append(['write', rng.choice(names), uid, rng.choice([4, 20, 60]),
                            rng.random() < 0.5])
            elif r < 0.45:
                ops.append(['read', rng.choice(names)])
            elif r < 0.6:
                ops.append(['map', rng.choice(maps), uid, rng.choice(MODES),
                            rng.choice(['same', 'same', 'fine', 'radius', 'frac',
                                        'wide', 'tall'])])
            elif r < 0.8:
                ops.append(['apply', rng.choice(maps), rng.choice(sorted(WAYS))])
            elif r < 0.9:
                # only the owner generates a map; the others use it if it exists
                ops.append(['psd', rng.randrange(np_)])
            else:
                ops.append(['psd', p])
        procs.append(ops)
    cfg = {'procs': procs, 'psd': [
        {'mode': rng.choice(['', 'MIRROR', 'AMPLITUDE']), 'rms': rng.random() < 0.5,
         'maxf': rng.random() < 0.3, 'seed': rng.randrange(1000)} for _ in range(np_)],
        'fault': None, 'sched': C.sched(rng)}
    if rng.random() < 0.6:
        cfg['fault'] = [rng.choice(['crash', 'power', 'worker', 'enospc', 'eio']),
                        rng.random(), rng.randrange(1 << 30)]
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    for i, p in enumerate(cfg['procs']):
        if len(cfg['procs']) > 1 and i == len(cfg['procs']) - 1:
            q = [[o for o in x if o[0] != 'psd' or o[1] != i] for x in cfg['procs'][:i]]
            yield dict(cfg, procs=q, psd=cfg['psd'][:i])
        for j in range(len(p)):
            if len(p) > 1:
                yield dict(cfg, procs=cfg['procs'][:i] + [p[:j] + p[j+1:]]
                           + cfg['procs'][i+1:])
    yield from C.shrink_keys(cfg, {'fault': None})


def content(uid, n=None):
    r = np.random.RandomState(uid)
    if n is not None:
        return r.standard_normal((n, n + 3))
    return 1e-8*r.standard_normal((N, N)).cumsum(0)


def wavefront():
    from falco import proper
    wf = proper.prop_begin(DIAM, 6e-7, N, 0.5)
    proper.prop_circular_aperture(wf, DIAM/2)
    return wf


def centered(a):
    return np.fft.fftshift(a)


class Clock:
    """Orders the starts and ends of operations."""

    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return self.t


LOG = []            # (process, operation, start, end, value) of all processes
TICK = Clock()


def yielder(n):
    s, t = S._task()
    if s is not None and t is not None:
        s.yield_(hot=True)


def process(arg):
    """A user's process.  Notes what each operation gave in the log."""
    from falco import proper
    me, ops, psd = arg
    try:
        for op in ops:
            t0 = TICK()
            val = err = None
            if op[0] in ('write', 'map'):   # it may take effect from now on
                rec = [me, op, t0, None, None, 'running']
                LOG.append(rec)
            try:
                if op[0] == 'write':
                    kw = {'HEADER': {'UID': (op[2], 'content')}} if op[4] else {}
                    proper.prop_fits_write(op[1], content(op[2], op[3]), **kw)
                elif op[0] == 'read':
                    if os.path.exists(op[1]):
                        a, h = proper.prop_fits_read(op[1], header=True)
                        val = (a, h.get('UID', None))
                elif op[0] == 'map':
                    write_map(proper, *op[1:])
                elif op[0] == 'apply':
                    if os.path.exists(op[1]):
                        val = apply_map(proper, op[1], op[2])
                elif op[0] == 'psd':
                    k = op[1]
                    if k == me or os.path.exists('psd%d.fits' % k):
                        val = psd_map(proper, k, psd[k])
                # (let others in between two operations)
                yielder(0)
            except OSError as e:
                err = repr(e)
            if op[0] in ('write', 'map'):
                rec[3:] = [TICK(), None, err]
            else:
                LOG.append([me, op, t0, TICK(), val, err])
    except F.SimCrash:
        return 'died'
    return 'done'


def map_content(uid, mode, kind):
    a = content(uid)
    if kind == 'wide':
        a = np.hstack([a[:, :4], a, a[:, -4:]])
    elif kind == 'tall':
        a = np.vstack([a[:2], a, a[-2:]])
    return 1 + 1e6*a if mode == 'AMPLITUDE' else a


def write_map(proper, name, uid, mode, kind, sampling=False):
    a = map_content(uid, mode, kind)
    kw = {'WAVEFRONT': {}, 'MIRROR_SURFACE': {'MIRROR': True},
          'AMPLITUDE': {'AMPLITUDE': True}}[mode]
    if kind == 'fine':
        kw['SAMPLING'] = DX/1.25
    elif kind in ('radius', 'frac'):
        r = N/4. + (0.5 if kind == 'frac' else 0.)
        kw['RADIUS_PIX'] = r
        if sampling:        # the same in other words
            del kw['RADIUS_PIX']
            kw['SAMPLING'] = DIAM/2/r
    else:
        kw['SAMPLING'] = DX
    proper.prop_writemap(a, name, **kw)


def apply_map(proper, name, way='plain'):
    """Wavefronts with the map in all the ways, so that any map can be told."""
    r = []
    for mode in MODES:
        wf = wavefront()
        kw = dict(WAYS[way][0])
        if mode == 'AMPLITUDE':
            kw.pop('NM', None)
            kw.pop('MICRONS', None)
        sh = kw.pop('xshift', 0.), kw.pop('yshift', 0.)
        with contextlib.redirect_stdout(io.StringIO()):
            proper.prop_errormap(wf, name, *sh, **{mode: True}, **kw)
        r.append(wf.wfarr.copy())
    return np.array(r)


def psd_map(proper, k, c):
    wf = wavefront()
    kw = {'FILE': 'psd%d.fits' % k}
    if c['mode'] == 'MIRROR':
        kw['MIRROR'] = True
    elif c['mode'] == 'AMPLITUDE':
        kw['AMPLITUDE'] = 0.95
    if c['rms']:
        kw['RMS'] = True
    if c['maxf']:
        kw['MAX_FREQUENCY'] = 300.
    np.random.seed(c['seed'] + TICK())      # every generation is another map
    amp = {'': 1e-18, 'MIRROR': 5e-19, 'AMPLITUDE': 0.01}[c['mode']]
    if c['rms'] and c['mode'] != 'AMPLITUDE':
        amp = 1e-8
    with contextlib.redirect_stdout(io.StringIO()):
        dmap = proper.prop_psd_errormap(wf, amp, 200., 3., **kw)
    return np.array([dmap, wf.wfarr])


def map_oracle(op, way):
    """What apply_map gives, without a file; None when it is resampled."""
    a = map_content(*op[2:5])
    if op[4] in ('fine', 'frac'):
        return None
    a = a[(a.shape[0] - N)//2:, (a.shape[1] - N)//2:][:N, :N]
    r = []
    for mode in MODES:
        wf = wavefront()
        b = WAYS[way][1](a)
        if mode == 'AMPLITUDE' and way in ('nm', 'microns'):
            b = WAYS[way][0]['MULTIPLY']*a
        b = np.fft.ifftshift(b)
        if mode == 'WAVEFRONT':
            wf.wfarr *= np.exp(2j*np.pi/6e-7*b)
        elif mode == 'MIRROR_SURFACE':
            wf.wfarr *= np.exp(-4j*np.pi/6e-7*b)
        else:
            wf.wfarr *= b
        r.append(wf.wfarr.copy())
    return np.array(r)


def run(cfg, ctx):
    import multiprocessing
    from falco import proper
    cwd = os.path.join(ctx.scratch, 'cwd')
    ref = os.path.join(ctx.scratch, 'ref')
    os.makedirs(ref)
    os.chdir(ref)
    proper.print_it = False
    oracle = {}
    for p in cfg['procs']:
        for op in p:
            if op[0] == 'map':
                write_map(proper, 'x.fits', *op[2:])
                if op[4] == 'frac':
                    write_map(proper, 'y.fits', *op[2:], sampling=True)
                for way in sorted(WAYS):
                    if way == 'center' and op[4] in ('wide', 'tall'):
                        continue
                    o = apply_map(proper, 'x.fits', way)
                    oracle[op[2], way] = o
                    want = map_oracle(op, way)
                    if want is None and op[4] == 'frac':
                        want = apply_map(proper, 'y.fits', way)
                    if want is not None:
                        # (wrapped or repeated outside the aperture)
                        dark = np.abs(wavefront().wfarr) < 1e-9
                        ctx.close(np.where(dark, 0, o), np.where(dark, 0, want), 'map',
                                  'map as written %r, applied: %s' % (op, way), rtol=1e-7)
                os.remove('x.fits')
                if op[4] == 'frac':
                    os.remove('y.fits')

    def master():
        args = [(k, ops, cfg['psd']) for k, ops in enumerate(cfg['procs'])]
        if len(args) == 1:
            return [process(args[0])]
        pool = multiprocessing.Pool(len(args))
        r = pool.map(process, args, chunksize=1)
        pool.close()
        pool.join()
        return r

    def go(fs):
        del LOG[:]
        TICK.t = 0
        fs.watch = yielder
        with fs:
            return ctx.sim(master, max_steps=2000000)

    def check(fs, files):
        fired = fs.fired and fs.fired[0]
        writes = {}
        for k, v in files.items():
            writes.setdefault(k, []).append((-2, -1, v))    # before everything
        psd = dict()
        for p, op, t0, t1, val, err in LOG:
            if op[0] in ('write', 'map'):
                writes.setdefault(op[1], []).append((t0, t1, op))
            if err not in (None, 'running') and fired not in ('enospc', 'eio'):
                ctx.fail('failed', '%r: %s' % (op, err))
            if err == 'running' and fired not in ('worker', 'crash', 'power'):
                ctx.fail('failed', '%r never ended' % op)

        def candidates(name, t0, t1):
            w = writes.get(name, [])
            ok = []
            for a in w:
                if a[0] > t1:
                    continue
                # (a write that failed may or may not have taken effect)
                if any(b is not a and b[1] is not None and b[3]
                       and b[1] < t0 and a[1] is not None and a[1] < b[0]
                       for b in [x + (x[2] not in failed,) for x in w]):
                    continue
                ok.append(a[2])
            return ok
        failed = [op for p, op, t0, t1, val, err in LOG if err is not None
                  and op[0] in ('write', 'map')]
        for p, op, t0, t1, val, err in LOG:
            if err is not None or val is None:
                if val is None and err is None and op[0] in ('read', 'apply') and any(
                        w[1] is not None and w[1] < t0 and w[2] not in failed
                        for w in writes.get(op[1], [])):
                    ctx.fail('lost', '%r: no file after a completed write' % op)
                continue
            ctx.evals += 1
            if op[0] == 'read':
                c = candidates(op[1], t0, t1)
                for w in c:
                    x = content(w[2], w[3])
                    if val[0].shape == x.shape and np.array_equal(val[0], x) and \
                            val[1] == (w[2] if w[4] else None):
                        break
                else:
                    ctx.fail('read-wrong', '%r gave none of %r' % (op, c))
                ctx.stat('reads')
            elif op[0] == 'apply':
                c = candidates(op[1], t0, t1)
                for w in c:
                    pass
                # (each of the three applications reads the file)
                for k in range(len(MODES)):
                    if not any(np.array_equal(val[k], oracle[w[2], op[2]][k])
                               for w in c if (w[2], op[2]) in oracle) and all(
                                   (w[2], op[2]) in oracle for w in c):
                        ctx.fail('map-wrong', '%r %s gave none of %r' % (op, MODES[k], c))
                ctx.stat('applications')
            elif op[0] == 'psd':
                x = psd.setdefault(op[1], (op, val))[1]
                ctx.close(val[0], x[0], 'psd-map', 'another map was used: %r by %d' % (op, p),
                          rtol=1e-6)
                ctx.close(val[1], x[1], 'psd-field', 'PSD map %r by %d' % (op, p), rtol=1e-6)
                ctx.stat('psd maps')
            ctx.digest(op, np.asarray(val[0]))
        return writes

    def listing(strict):
        """The files must be complete, and the temporary ones gone."""
        for f in sorted(os.listdir('.')):
            if f.endswith(('.fits', '.fits.gz')) and '.tmp' not in f:
                try:
                    a = proper.prop_fits_read(f)
                    assert np.all(np.isfinite(a))
                except Exception as e:
                    ctx.fail('torn', '%s: %r' % (f, e))
            elif strict:
                ctx.fail('temporary-file', f)

    def fresh():
        os.chdir(ctx.scratch)
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        os.chdir(cwd)

    fresh()
    fs = F.FaultyFS(cwd)
    go(fs)
    check(fs, {})
    listing(True)
    if cfg['fault'] and fs.n:
        kind, frac, seed = cfg['fault']
        fresh()
        fs = F.FaultyFS(cwd, at=F.pick(frac, fs.n), kind=kind, seed=seed)
        try:
            go(fs)
        except (S.SimDeadlock, F.SimCrash):
            if not fs.fired or fs.kind not in ('worker', 'crash', 'power'):
                raise           # the pool of a killed worker stalls
        if fs.fired:
            ctx.fault('%s at %s' % fs.fired)
        if fs.kind == 'power' and fs.fired:
            fs.power_loss()
        w = check(fs, {})
        # what is there now is one of the complete contents
        listing(fs.fired is None or kind in ('enospc', 'eio'))
        left = {}
        for name, ws in w.items():
            if os.path.exists(name):
                if ws[0][2][0] == 'write':
                    a = proper.prop_fits_read(name)
                    m = [x[2] for x in ws if x[2][3] == a.shape[0]
                         and np.array_equal(a, content(x[2][2], x[2][3]))]
                else:
                    a = apply_map(proper, name)
                    m = [x[2] for x in ws if np.array_equal(a, oracle[x[2][2], 'plain'])]
                if not m:
                    ctx.fail('wrong-content', name)
                left[name] = m[0]
        # the processes start again with these files
        fs = F.FaultyFS(cwd)
        go(fs)
        check(fs, left)
    if len(cfg['procs']) > 1:
        ctx.nontrivial = True
