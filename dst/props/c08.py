"""Prescriptions run in parallel give what they give one by one."""
import contextlib
import io
import os

import numpy as np

from props import common as C
import simstate

ID = 'C08'
QUICK = 300
RULE = ('a run counts when several prescriptions were run by several workers; '
        'distinct by (configuration, schedule)')
REAL = ('falco.proper.prop_run_multi, prop_execute_multi, prop_run and the '
        'propagation routines')
STUB = ('worker processes are simulated (own module state, pickled arguments '
        'and results, scheduler-controlled interleaving); prescription dst/simstate.py')


def gen(rng, i):
    def call():
        k = rng.choice(['lam', 'pass', 'both', 'both', 'one', 'dict'])
        n = 1 if k == 'one' else rng.choice([2, 3, 4, 5, 7])
        c = {'kind': k, 'n': rng.choice([32, 64]), 'lams': [
            round(0.45 + 0.03*rng.randrange(8), 3) for _ in range(n)],
            'nel': n, 'ncpus': rng.choice([None, 1, 2, 3, 8]),
            'listtype': rng.choice(['list', 'array']),
            'quiet': rng.random() < 0.7, 'phase': rng.random() < 0.4,
            'pv': [{'save': False, 'obsc': rng.choice([0, 0.3]), 'occ': rng.choice([0, 1.5]),
                    'ratio': rng.choice([0.4, 0.5]), 'at': rng.choice([0, 2, 3]),
                    'back': rng.choice([0., 40., 90.]), 'noabs': True,
                    'mult': rng.choice([0, 0.2])} for _ in range(n)]}
        noabs = rng.random() < 0.7
        for p in c['pv']:
            p['noabs'] = noabs
        if rng.random() < 0.25:
            for p in rng.sample(c['pv'], rng.choice([1, 1, min(2, n)])):
                p['fail'] = rng.choice(['begin', 'front', 'end'])
        return c
    cfg = {'calls': [call() for _ in range(rng.choice([1, 2, 3]))],
           'sub': rng.choice([11, 11, 5]), 'sched': C.sched(rng)}
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    for k in range(len(cfg['calls'])):
        if len(cfg['calls']) > 1:
            yield dict(cfg, calls=cfg['calls'][:k] + cfg['calls'][k+1:])
        c = cfg['calls'][k]

        def put(c2):
            return dict(cfg, calls=cfg['calls'][:k] + [c2] + cfg['calls'][k+1:])
        if c['nel'] > 2 and c['kind'] != 'one':
            for j in range(c['nel']):
                yield put(dict(c, nel=c['nel'] - 1, lams=c['lams'][:j] + c['lams'][j+1:],
                               pv=c['pv'][:j] + c['pv'][j+1:]))
        for key, v in (('phase', False), ('quiet', True), ('ncpus', 2), ('n', 32)):
            if c[key] != v:
                yield put(dict(c, **{key: v}))
        for key, v in (('obsc', 0), ('occ', 0), ('at', 0), ('mult', 0)):
            if any(p[key] != v for p in c['pv']):
                yield put(dict(c, pv=[dict(p, **{key: v}) for p in c['pv']]))


def run(cfg, ctx):
    from falco import proper
    os.chdir(ctx.scratch)
    proper.prop_set_antialiasing(cfg['sub'])
    for c in cfg['calls']:
        kw = {}
        if c['quiet']:
            kw['QUIET'] = True
        if c['phase']:
            kw['PHASE_OFFSET'] = True
        lams = c['lams'] if c['listtype'] == 'list' else np.array(c['lams'])
        pvs = c['pv'] if c['listtype'] == 'list' else np.array(c['pv'], dtype=object)
        if c['kind'] == 'lam':
            lam, passv = lams, None
            each = [(x, None) for x in c['lams']]
        elif c['kind'] == 'pass':
            lam, passv = c['lams'][0], pvs
            each = [(lam, p) for p in c['pv']]
        elif c['kind'] == 'dict':
            lam, passv = lams, c['pv'][0]
            each = [(x, passv) for x in c['lams']]
        elif c['kind'] == 'one':
            lam, passv = c['lams'][0], c['pv'][0]
            each = [(lam, passv)]
        else:
            lam, passv = lams, pvs
            each = list(zip(c['lams'], c['pv']))
        want, bad = [], False
        with contextlib.redirect_stdout(io.StringIO()):
            for x, p in each:
                try:
                    k2 = dict(kw, PASSVALUE=dict(p)) if p is not None else dict(kw)
                    if p is None:
                        want.append(proper.prop_run('simfree', x, c['n'], **k2))
                    else:
                        want.append(proper.prop_run('simstate', x, c['n'], **k2))
                except simstate.PrescriptionError:
                    bad = True
        name = 'simfree' if passv is None else 'simstate'
        k2 = dict(kw)
        if passv is not None:
            k2['PASSVALUE'] = passv
        if c['ncpus']:
            k2['NCPUS'] = c['ncpus']
        state = np.random.get_state()[1].copy()
        got = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = ctx.sim(lambda: proper.prop_run_multi(name, lam, c['n'], **k2),
                              max_steps=5000000)
        except simstate.PrescriptionError:
            if not bad:
                raise
            ctx.fault('failing prescription')
        if ctx.last.leaked:
            ctx.fail('workers-left', '%r after a call that %s' % (
                ctx.last.leaked, 'failed' if got is None else 'succeeded'))
        if got is None:
            continue
        if bad:
            ctx.fail('failure-swallowed', 'a prescription failed, but the call succeeded')
        f, dx = got
        if len(f) != len(each) or len(dx) != len(each):
            ctx.fail('count', repr((f.shape, dx.shape, len(each))))
        for j, (y, d) in enumerate(want):
            if f[j].dtype.kind != np.asarray(y).dtype.kind:
                ctx.fail('type', '%s instead of %s' % (f[j].dtype, np.asarray(y).dtype))
            ctx.close(f[j], y, 'field', '%s, element %d' % (c['kind'], j))
            ctx.close(np.array(dx[j]), np.array(d), 'sampling', '%s, element %d' % (c['kind'], j))
        if not np.array_equal(state, np.random.get_state()[1]):
            ctx.fail('random-state', 'the caller\'s random state changed')
        ctx.digest(f)
        ctx.key(c['kind'], len(each), c['ncpus'])
        if len(each) > 1:
            ctx.nontrivial = True
