"""The data snippet of a trial survives crashes and failing disks."""
import copy
import os
import pickle

import numpy as np

from props import common as C
import faults as F

ID = 'C15'
QUICK = 100
RULE = ('a run counts when at least one crash or disk fault was injected into the '
        'trial; distinct by (configuration, fault kind and event)')
REAL = 'falco.wfsc.loop and everything below it, pickle'
STUB = ('the file API below builtins.open/os.replace/os.remove/os.fsync (simulated '
        'disk: torn, lost and failing writes); process death is an exception that '
        'stops all further effects')

KINDS = ('crash', 'crash', 'power', 'power', 'enospc', 'eio', 'kill')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2, 3),
                         coros=('LC', 'LC', 'APLC', 'FLC', 'vortex', 'HLC'))
    m['Nsbp'] = 1 if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = 1
    m['initV'] = rng.choice([0., 5.])
    m['label'] = rng.choice(C.LABELS)
    return {'model': m, 'yaml': rng.random() < 0.2,
            'faults': [[rng.choice(KINDS), rng.random(), rng.randrange(1 << 30),
                        rng.random() < 0.5] for _ in range(4)],
            'again': rng.random() < 0.4}


def shrink(cfg):
    if len(cfg['faults']) > 1:
        for f in cfg['faults']:
            yield dict(cfg, faults=[f])
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'again': False, 'yaml': False})


def snippet(path):
    """('none',) | ('torn', why) | ('ok', histories)"""
    fn = os.path.join(path, snippet.label + '_snippet.pkl')
    if not os.path.lexists(fn):
        return ('none',)
    try:
        with open(fn, 'rb') as f:
            h = C.histories(pickle.load(f))
    except Exception as e:
        return ('torn', repr(e))
    return ('ok', {k: v for k, v in h.items() if k != 'serialDate'})


def eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] != 'ok':
        return True
    a, b = a[1], b[1]
    return sorted(a) == sorted(b) and all(
        a[k].shape == b[k].shape and
        np.allclose(a[k], b[k], rtol=1e-9, atol=1e-300, equal_nan=True) for k in a)


def describe(s):
    return s[0] if s[0] != 'ok' else 'iteration %d' % int(s[1]['Itr'])


def trial(ctx, proto, sub, fs_args, calls=None):
    """A trial in a directory of its own; returns (out, fs, exception)."""
    import falco
    mp, out = copy.deepcopy(proto)
    d = os.path.join(ctx.scratch, sub)
    os.makedirs(d, exist_ok=True)
    mp.path.brief = d
    other = C.others(d)
    fs = F.FaultyFS(d, **fs_args)
    states = []

    def watch(n):
        s = snippet(d)
        if s[0] != 'torn' and not (states and eq(states[-1][1], s)):
            states.append((n, s))
    if calls is None and fs_args.get('at') is None:
        fs.watch = watch
    exc = None
    with fs:
        try:
            if calls is not None:
                with calls:
                    falco.wfsc.loop(mp, out)
            else:
                falco.wfsc.loop(mp, out)
        except (F.SimCrash, OSError) as e:
            exc = e
    if fs.watch:
        watch(fs.n)
    if fs.kind == 'power' and fs.fired:
        fs.power_loss()
    C.check_others(ctx, other)
    return d, out, fs, exc, states


def at(states, n):
    """The snippet on the disk after n events."""
    r = ('none',)
    for k, s in states:
        if k <= n:
            r = s
    return r


def run(cfg, ctx):
    import falco
    proto = C.build(ctx, cfg['model'], yaml=cfg['yaml'])
    snippet.label = proto[0].runLabel
    d, out, fs, exc, states = trial(ctx, proto, 'ref', {})
    if exc is not None:
        raise exc
    final = C.histories(out)
    N = proto[0].Nitr
    # every iteration is saved, and as it will be known at the end
    seen = {}
    for n, s in states:
        if s[0] == 'ok':
            seen.setdefault(int(s[1]['Itr']), s)
    for it in range(N):
        if it not in seen:
            ctx.fail('iteration-not-saved', 'no snippet of iteration %d of %d'
                     % (it, N))
        h = seen[it][1]
        for k, n in (('dm1.Vall', it + 1), ('dm2.Vall', it + 1),
                     ('log10regHist', it + 1), ('InormHist', it + 1),
                     ('IrawScoreHist', it + 1), ('thput', it + 1)):
            a, b = h[k], final[k]
            if k.endswith('Vall'):
                a, b = a[:, :, :n], b[:, :, :n]
            else:
                a, b = a[:n], b[:n]
            ctx.close(a, b, 'snippet-lacks-iteration', '%s of iteration %d'
                      % (k, it), rtol=1e-9)
    last = snippet(d)
    if last[0] != 'ok':
        ctx.fail('final-snippet', describe(last))
    for k in ('dm1.Vall', 'dm2.Vall', 'InormHist', 'thput', 'log10regHist'):
        ctx.close(last[1][k], final[k], 'final-snippet', k)
    targets = [(falco.imaging, 'calc_psf_norm_factor'), (falco.est, 'wrapper'),
               (falco.model, 'jacobian'), (falco.ctrl, 'wrapper'),
               (falco.imaging, 'calc_thput')]
    ncalls = None
    for j, (kind, frac, seed, sticky) in enumerate(cfg['faults']):
        if kind == 'kill':
            if ncalls is None:
                c = F.Calls(targets)
                trial(ctx, proto, 'count', {}, c)
                ncalls = c.n
            calls = F.Calls(targets, F.pick(frac, ncalls), F.SimCrash('killed'))
            dj, o, fj, exc, _ = trial(ctx, proto, 'f%d' % j, {}, calls)
            ctx.fault('process killed between writes')
            got = snippet(dj)
            # while iteration i runs, iteration i-1 is on the disk
            it = int(o.Itr) - 1
            if calls.n == ncalls:
                it = N - 1          # final throughput, after the last iteration
            want = seen.get(it, ('none',))
            if not eq(got, want):
                ctx.fail('killed:%s' % got[0], 'killed at %s (%d of %d) in iteration %d: found %s, '
                         'expected %s' % (calls.fired, calls.n, ncalls, int(o.Itr),
                                          describe(got), describe(want)))
            what = 'kill'
        else:
            e = F.pick(frac, fs.n)
            dj, o, fj, exc, _ = trial(ctx, proto, 'f%d' % j, dict(
                at=e, kind=kind, seed=seed, sticky=sticky))
            if not fj.fired:
                continue
            what = '%s at %s' % fj.fired
            ctx.fault(what)
            got = snippet(dj)
            ok = [at(states, e - 1)]
            if kind in ('crash', 'power'):
                ok.append(at(states, e))
            elif exc is None and fj.fired[1] != 'remove':
                ctx.fail('failure-swallowed', 'the trial went on after ' + what)
            elif fj.fired[1] == 'remove':
                continue
            if not any(eq(got, s) for s in ok):
                ctx.fail('snippet-lost:%s' % got[0], '%s (event %d of %d): found %s, '
                         'expected %s' % (what, e, fs.n, describe(got),
                                          ' or '.join(describe(s) for s in ok)))
        ctx.key('fault', what, describe(got))
        ctx.evals += 1
        if cfg['again'] and j == 0:
            # a new trial in the same directory is not disturbed by the remains
            mp, out = copy.deepcopy(proto)
            mp.path.brief = dj
            falco.wfsc.loop(mp, out)
            if not eq(snippet(dj), last):
                ctx.fail('restart-differs', 'the trial repeated after %s' % what)
    ctx.digest(final['dm1.Vall'], final['InormHist'])
