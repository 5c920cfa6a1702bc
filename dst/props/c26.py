"""A model read from YAML behaves as the same model set in Python."""
import copy
import pickle
import threading

import numpy as np

from props import common as C

ID = 'C26'
QUICK = 170
RULE = ('a run counts when at least two context switches happened, or a whole trial '
        'was compared; distinct by (configuration, schedule hash)')
REAL = ('falco.config (YAML loader, lazy expressions, copies), falco.setup, '
        'falco.wfsc.loop and everything below it')
STUB = 'OS threads serialised by the seeded scheduler; worker processes simulated'


def gen(rng, i):
    r = rng.random()
    cfg = {'sched': C.sched(rng)}
    if r < 0.45:
        m = C.gen_loop_model(rng, Nitr=(1, 2))
        if rng.random() < 0.3 and 'zerns' not in m:
            m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
        if rng.random() < 0.25:
            m['zerns'] = [1, 2]
        if rng.random() < 0.3 and 'zerns' not in m:
            m['estimator'] = 'pairwise'
            m['Nwpsbp'] = 1
        cfg.update(mode='trial', model=m, par=rng.random() < 0.8,
                   how=rng.choice(['', '', 'copy', 'pickle']))
    elif r < 0.7:
        cfg.update(mode='parse', n=rng.choice([2, 3]), seed=rng.randrange(1 << 30),
                   shared=rng.random() < 0.4)
    else:
        cfg.update(mode='eval', n=rng.choice([2, 3, 4]), seed=rng.randrange(1 << 30),
                   bad=rng.random() < 0.5, fail=rng.random() < 0.3)
    return cfg


def shrink(cfg):
    if cfg['mode'] == 'trial':
        yield from C.shrink_std(cfg)
        yield from C.shrink_keys(cfg, {'par': False, 'how': ''})
    elif cfg.get('n', 2) > 2:
        yield dict(cfg, n=cfg['n'] - 1)


def run(cfg, ctx):
    {'trial': trial, 'parse': parse, 'eval': evaluate}[cfg['mode']](cfg, ctx)


def trial(cfg, ctx):
    import falco
    mp, out = C.build(ctx, cfg['model'])
    my, outy = C.build(ctx, cfg['model'], sub='y', yaml=True)
    if cfg['how'] == 'copy':
        my, outy = copy.deepcopy((my, outy))
    elif cfg['how'] == 'pickle':
        my, outy = pickle.loads(pickle.dumps((my, outy)))
    near = []
    orig = falco.ctrl.wrapper

    def spy(mp_, cvar, jac):
        r = orig(mp_, cvar, jac)
        v = np.sort(np.ravel(getattr(cvar, 'InormVec', [])))
        if v.size > 1 and v[1] - v[0] < 1e-5*v[-1]:
            near.append(1)
        return r
    falco.ctrl.wrapper = spy
    try:
        falco.wfsc.loop(mp, out)
    finally:
        falco.ctrl.wrapper = orig
    if cfg['par']:
        my.flagParallel = True
        ctx.sim(lambda: falco.wfsc.loop(my, outy))
    else:
        falco.wfsc.loop(my, outy)
    ctx.nontrivial = True
    got, ref = C.histories(outy), C.histories(out)
    ctx.digest(got['InormHist'], got['dm1.Vall'])
    if near:
        ctx.stat('near_ties')
        return
    C.compare_histories(ctx, got, ref, 'yaml-trial-differs')
    for k in (1, 2):
        ctx.close(getattr(my, 'dm%d' % k).V, getattr(mp, 'dm%d' % k).V,
                  'final-command-differs', 'DM%d' % k, rtol=1e-6)


TEXT = '''
a: %d
sub:
  b: !eval mp.a*2
  c: !eval mp.sub.b + x
  deep:
    d: !eval np.full(2, mp.sub.c)
probe: !Probe
  Npairs: %d
e: !eval mp.probe.Npairs*mp.a
'''


def expect(a, n, x):
    return [a, 2*a, 2*a + x, 2*a + x, n, n*a]


def values(mp):
    d = mp.sub.deep.d
    return [mp.a, mp.sub.b, mp.sub.c, int(d[0]), mp.probe.Npairs, mp.e]


def _threads(ctx, fns):
    res = [None]*len(fns)

    def body(k):
        def go():
            try:
                res[k] = ('ok', fns[k]())
            except Exception as e:
                res[k] = ('exc', '%s: %s' % (type(e).__name__, e))
        return go

    def main():
        ts = [threading.Thread(target=body(k)) for k in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    ctx.sim(main)
    return res


def parse(cfg, ctx):
    import random
    import falco
    import yaml
    rng = random.Random(cfg['seed'])
    P = falco.config.ModelParameters
    par = [(rng.randrange(1, 50), rng.randrange(1, 9), rng.randrange(100))
           for _ in range(cfg['n'])]
    if cfg['shared']:       # one context object for all of them
        par = [(a, n, par[0][2]) for a, n, _ in par]
        shared = {'x': par[0][2]}

    def job(a, n, x):
        def go():
            mp = P.from_yaml(TEXT % (a, n), shared if cfg['shared'] else {'x': x})
            r = [values(mp)]
            mp2 = copy.deepcopy(mp)
            mp2.a = a + 1
            r.append(values(mp2))
            r.append(values(mp))
            return mp, r
        return go
    res = _threads(ctx, [job(*p) for p in par])
    for (a, n, x), r in zip(par, res):
        if r[0] != 'ok':
            ctx.fail('parse-failed', r[1])
        mp, (v0, v1, v2) = r[1]
        ctx.same(v0, expect(a, n, x), 'parsed-value-of-another-configuration')
        ctx.same(v1, expect(a + 1, n, x), 'copy-not-independent')
        ctx.same(v2, expect(a, n, x), 'copy-changed-the-original')
        ctx.same(values(mp), expect(a, n, x), 'value-changed-afterwards')
        ctx.digest(v0)
    # other users of the YAML library are not affected
    ctx.same(type(yaml.safe_load('a: {b: 1}')['a']).__name__, 'dict',
             'yaml-library-changed')


def evaluate(cfg, ctx):
    import random
    import falco
    rng = random.Random(cfg['seed'])
    a, n, x = rng.randrange(1, 50), rng.randrange(1, 9), rng.randrange(100)
    text = TEXT % (a, n) + '''
u: !eval mp.v + 1
v: !eval mp.w
w: !eval mp.u
f: !eval mp.missing + mp.a
g: !eval mp.f
'''
    mp = falco.config.ModelParameters.from_yaml(text, {'x': x})

    def good():
        return [values(mp) for _ in range(2)]

    def bad():
        r = []
        for k in ('u', 'w', 'v'):
            try:
                getattr(mp, k)
                r.append('no error')
            except ValueError:
                r.append('circular')
            except RecursionError:
                r.append('recursion')
        return r

    def failing():
        for k in 'gf':
            try:
                getattr(mp, k)
                return 'no error'
            except AttributeError:
                pass
        return good()
    jobs = [good]*cfg['n']
    if cfg['bad']:
        jobs[-1] = bad
    if cfg['fail']:
        jobs[0] = failing
    res = _threads(ctx, jobs)
    for j, r in zip(jobs, res):
        if r[0] != 'ok':
            ctx.fail('evaluation-failed', r[1])
        if j is bad:
            ctx.same(r[1], ['circular']*3, 'circular-dependency-not-reported')
        else:
            ctx.same(r[1], [expect(a, n, x)]*2, 'wrong-value')
    mp.missing = 3
    ctx.same(mp.g, 3 + a, 'value-after-a-failed-evaluation')
    m2 = pickle.loads(pickle.dumps(mp))
    m2.a = a + 5
    ctx.same(values(m2), expect(a + 5, n, x), 'pickled-copy')
    ctx.same(values(mp), expect(a, n, x), 'pickled-copy-changed-the-original')
    ctx.digest(values(m2))
