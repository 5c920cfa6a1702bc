"""The saved workspace is complete, loadable and replaced at once."""
import copy
import os
import pickle

import numpy as np

from props import common as C
import faults as F

ID = 'C17'
QUICK = 80
RULE = ('a run counts when a workspace was saved, loaded and compared, and at least '
        'one save was disturbed; distinct by (configuration, fault kind and event)')
REAL = 'falco.wfsc.loop and everything below it, falco.config, pickle'
STUB = ('the file API below builtins.open/os.replace/os.remove/os.fsync; process '
        'death is an exception that stops all further effects')

# large maps that are left out of the workspace
STRIPPED = ('mask', 'E', 'inf_datacube', 'complexTransFull', 'complexTransCompact')
KINDS = ('crash', 'crash', 'power', 'enospc', 'eio')


def gen(rng, i):
    m = C.gen_loop_model(rng, Nitr=(1, 2))
    m['Nsbp'] = 1 if m['coro'] != 'HLC' else 2
    m['Nwpsbp'] = 1
    m['label'] = rng.choice(C.LABELS)
    m['initV'] = rng.choice([0., 5.])
    if m.get('layout') != 'proper' and rng.random() < 0.3:
        m['estimator'] = 'pairwise-rect'
    if rng.random() < 0.2 and 'estimator' not in m:
        m['stars'] = 2
    if m.get('layout') == 'proper':
        m.pop('stars', None)
    m.update(C.gen_constraints(rng, 0.3))
    cfg = {'model': m, 'yaml': rng.random() < 0.35, 'par': rng.random() < 0.2,
           'faults': [[rng.choice(KINDS), rng.random(), rng.randrange(1 << 30),
                       rng.random() < 0.5] for _ in range(3)]}
    if cfg['par']:
        cfg['sched'] = C.sched(rng)
    return cfg


def shrink(cfg):
    if len(cfg['faults']) > 1:
        for f in cfg['faults']:
            yield dict(cfg, faults=[f])
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'yaml': False, 'par': False})


def leaves(falco, o, pre='', seen=()):
    """All values of a model, lazy ones evaluated."""
    r = {}
    if id(o) in seen:
        return r
    seen = seen + (id(o),)
    keys = set(k for k in vars(o) if k != 'data')
    if isinstance(o, falco.config.Object):
        keys |= set(o.data)
    for k in sorted(keys):
        v = getattr(o, k)
        if isinstance(v, falco.config.Object):
            r.update(leaves(falco, v, pre + k + '.', seen))
        elif isinstance(v, (bool, int, float, complex, str, np.generic, np.ndarray,
                            list, tuple, type(None))):
            r[pre + k] = v
    return r


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype.kind == b.dtype.kind and (
            repr(a.tolist()) == repr(b.tolist()) if a.dtype == object
            else np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    return type(a) is type(b) and repr(a) == repr(b)


def load(fn):
    if not os.path.exists(fn):
        return ('none', None)
    try:
        with open(fn, 'rb') as f:
            return ('ok', pickle.load(f))
    except Exception as e:
        return ('torn', repr(e))


def run(cfg, ctx):
    import falco
    mp, out = C.build(ctx, cfg['model'], yaml=cfg['yaml'], parallel=cfg['par'])
    mp.flagSaveWS = True
    proto = copy.deepcopy((mp, out))
    proto[0].flagParallel = False
    fn = os.path.join(mp.path.ws, mp.runLabel + '_all.pkl')
    ws = os.path.realpath(mp.path.ws)
    N = mp.Nitr
    other = C.others(ws)
    fs = F.FaultyFS(ws)
    with fs:
        if cfg['par']:
            ctx.sim(lambda: falco.wfsc.loop(mp, out))
        else:
            falco.wfsc.loop(mp, out)
    what, w = load(fn)
    if what != 'ok':
        ctx.fail('workspace-' + what, str(w))
    final = C.histories(out)
    ctx.digest(final['dm1.Vall'], final['InormHist'])
    # the workspace is the model at the end of the trial
    for k in (1, 2):
        ctx.same(getattr(w, 'dm%d' % k).V, final['dm%d.Vall' % k][:, :, N],
                 'final-command', 'DM%d in the workspace' % k)
    a, b = leaves(falco, w), leaves(falco, mp)
    for k in sorted(b):
        if k.split('.')[-1] in STRIPPED:
            continue
        if k not in a:
            ctx.fail('value-lost', k)
        if not equal(a[k], b[k]):
            ctx.fail('value-differs', '%s: %.100r, in the trial %.100r'
                     % (k, a[k], b[k]))
    ctx.evals += len(b)
    # ... and can be worked with
    for k in (1, 2):
        s = [falco.dm.gen_surf_from_act(getattr(x, 'dm%d' % k), mp.dm1.compact.dx,
                                        mp.dm1.compact.Ndm) for x in (w, mp)]
        ctx.close(s[0], s[1], 'surface-of-workspace', 'DM%d' % k)
    # ---- saving again, disturbed, in the place of a workspace that is there
    with open(fn, 'rb') as f:
        old = f.read()
    if not fs.n:
        return
    for j, (kind, frac, seed, sticky) in enumerate(cfg['faults']):
        mp2, out2 = copy.deepcopy(proto)
        mp2.dm1.V = mp2.dm1.V + 1.
        f = F.FaultyFS(ws, at=F.pick(frac, fs.n), kind=kind, seed=seed, sticky=sticky)
        exc = None
        with f:
            try:
                falco.wfsc.loop(mp2, out2)
            except (F.SimCrash, OSError) as e:
                exc = e
        if kind == 'power' and f.fired:
            f.power_loss()
        if not f.fired:
            continue
        what = '%s at %s' % f.fired
        ctx.fault(what)
        if exc is None and kind in ('enospc', 'eio') and f.fired[1] != 'remove':
            ctx.fail('failure-swallowed', what)
        st, w2 = load(fn)
        if st != 'ok':
            ctx.fail('workspace-lost:' + st, '%s (event %d of %d)' % (what, f.at, fs.n))
        V = w2.dm1.V
        with open(fn, 'rb') as g:
            now = g.read()
        if now != old and not np.array_equal(V, out2.dm1.Vall[:, :, N]):
            ctx.fail('workspace-mixed', what)
        # the record of the trial was saved before
        sn, h = load(os.path.join(mp2.path.brief, mp.runLabel + '_snippet.pkl'))
        if sn != 'ok' or not np.array_equal(h.dm1.Vall, out2.dm1.Vall):
            ctx.fail('snippet-not-saved', what)
        ctx.key(what, now == old)
        with open(fn, 'wb') as g:
            g.write(old)
    # a further trial in the same place
    mp2, out2 = copy.deepcopy(proto)
    falco.wfsc.loop(mp2, out2)
    st, w2 = load(fn)
    if st != 'ok' or not np.array_equal(w2.dm1.V, out2.dm1.Vall[:, :, N]):
        ctx.fail('not-replaced', st)
    C.check_others(ctx, other)
