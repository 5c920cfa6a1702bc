"""Saved PROPER states do not change what a prescription gives."""
import glob
import os

import numpy as np

from props import common as C
import faults as F
import sim as S

ID = 'C19'
QUICK = 250
RULE = ('a run counts when a saved state was used and more than one process '
        'or a fault was involved; distinct by (configuration, schedule, fault)')
REAL = ('falco.proper: prop_run, prop_run_multi, prop_init_savestate, prop_state, '
        'prop_savestate, prop_is_statesaved, prop_end_savestate and the '
        'propagation routines; numpy file format')
STUB = ('worker processes are simulated (own module state and process number, '
        'scheduler-controlled interleaving); simulated disk below the Python '
        'file API; prescription dst/simstate.py')


# (some of them less than a nanometre apart)
LAMS = [0.5, 0.5002, 0.50002, 0.55, 0.6]


def gen(rng, i):
    def runs():
        r = []
        for _ in range(rng.choice([2, 3, 4])):
            e = {'lam': rng.choice(LAMS), 'back': rng.choice([0., 30., 80.]),
                 'occ': rng.choice([0, 0, 1.5]), 'mult': rng.choice([0, 0, 0.3]),
                 'noabs': rng.random() < 0.7}
            if rng.random() < 0.2:
                e['fail'] = rng.choice(['begin', 'front', 'state', 'end'])
            if rng.random() < 0.3:
                e['multi'] = [rng.choice(LAMS) for _ in range(rng.choice([2, 3, 4]))]
                e['ncpus'] = rng.choice([1, 2, 3])
                e['backs'] = [rng.choice([0., 30., 80.]) for _ in e['multi']]
            elif rng.random() < 0.25:   # a file of wavelengths and weights
                e['lams'] = [[rng.choice(LAMS), rng.choice([0.2, 0.5, 1.])]
                             for _ in range(rng.choice([2, 3]))]
            if rng.random() < 0.1 and 'multi' not in e:
                e['table'] = True
            r.append(e)
        return r

    def session():
        return {'n': rng.choice([32, 64]), 'ratio': rng.choice([0.4, 0.5]),
                'at': rng.choice([0, 1, 2, 3, 4]), 'front': rng.choice([1., 2., -1.]),
                'obsc': rng.choice([0, 0.3]), 'runs': runs(),
                'offset': rng.random() < 0.3,
                'end': rng.random() < 0.9}
    k = rng.choice([1, 1, 2, 3])
    cfg = {'procs': [[session() for _ in range(rng.choice([1, 2]))] for _ in range(k)],
           'tick': rng.choice([1e-4, 1e-4, 0.]), 'jumps': [], 'fault': None, 'sched': C.sched(rng)}
    if k > 1:
        for p in cfg['procs']:
            for s in p:
                for e in s['runs']:
                    e.pop('multi', None)
    if rng.random() < 0.6:
        cfg['fault'] = [rng.choice(['worker', 'crash', 'enospc', 'eio']),
                        rng.random(), rng.randrange(1 << 30)]
    if rng.random() < 0.5:
        # the clock is set back or forward between calls
        cfg['jumps'] = [[rng.randrange(1, 12), rng.choice([-1e-4, -2e-4, -3e-4, 5., -5., 1e-4])]
                        for _ in range(rng.choice([1, 2, 4]))]
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    for i in range(len(cfg['procs'])):
        if len(cfg['procs']) > 1:
            yield dict(cfg, procs=cfg['procs'][:i] + cfg['procs'][i+1:])
        p = cfg['procs'][i]
        for j in range(len(p)):
            if len(p) > 1:
                yield dict(cfg, procs=cfg['procs'][:i] + [p[:j] + p[j+1:]] + cfg['procs'][i+1:])
            s = p[j]

            def put(s2):
                q = p[:j] + [s2] + p[j+1:]
                return dict(cfg, procs=cfg['procs'][:i] + [q] + cfg['procs'][i+1:])
            for k in range(len(s['runs'])):
                if len(s['runs']) > 1:
                    yield put(dict(s, runs=s['runs'][:k] + s['runs'][k+1:]))
                e = s['runs'][k]
                for key in ('fail', 'multi', 'lams', 'table'):
                    if key in e:
                        e2 = dict(e)
                        del e2[key]
                        yield put(dict(s, runs=s['runs'][:k] + [e2] + s['runs'][k+1:]))
            if s['at']:
                yield put(dict(s, at=0))
            if s.get('offset'):
                yield put(dict(s, offset=False))
            if s['obsc']:
                yield put(dict(s, obsc=0))
    yield from C.shrink_keys(cfg, {'fault': None, 'jumps': [], 'tick': 1e-4})


def one(s, e, save, k=None):
    """One call of the prescription: [(field, sampling)], in order."""
    from falco import proper
    pv = {a: s[a] for a in ('ratio', 'at', 'front', 'obsc')}
    pv.update({a: e[a] for a in ('back', 'occ', 'mult', 'noabs', 'fail') if a in e})
    pv['save'] = save
    if not save:
        pv.pop('fail', None)
    opt = {'PHASE_OFFSET': True} if s.get('offset') else {}
    if 'multi' in e:
        pvs = [dict(pv, back=b) for b in e['backs']]
        if save:
            r, dx = proper.prop_run_multi('simstate', list(e['multi']), s['n'], QUIET=True,
                                          PASSVALUE=pvs, NCPUS=e['ncpus'], **opt)
            return [(r[k], dx[k]) for k in range(len(pvs))]
        return [proper.prop_run('simstate', lam, s['n'], QUIET=True, PASSVALUE=p, **opt)
                for lam, p in zip(e['multi'], pvs)]
    if 'lams' in e:
        if save:
            if e.get('table'):
                opt['TABLE'] = True
            name = '%s.dat' % '_'.join('%g,%g' % (a, b) for a, b in e['lams'])
            return [proper.prop_run('simstate', name, s['n'], QUIET=True, PASSVALUE=pv, **opt)]
        r = [proper.prop_run('simstate', a, s['n'], QUIET=True, PASSVALUE=pv, **opt)
             for a, b in e['lams']]
        return [(sum(b*x[0] for (a, b), x in zip(e['lams'], r)), r[-1][1])]
    if save and e.get('table'):
        opt['TABLE'] = True
    return [proper.prop_run('simstate', e['lam'], s['n'], QUIET=True, PASSVALUE=pv, **opt)]


def process(sessions):
    """A user's process; returns what the runs gave, per session and run."""
    from falco import proper
    import simstate
    res, notes = [], []
    try:
        for s in sessions:
            proper.prop_init_savestate()
            notes.append(proper.statefile)
            out = []
            res.append(out)
            for e in s['runs']:
                for attempt in range(3):
                    e = dict(e)
                    try:
                        out.append(one(s, e, True))
                        break
                    except simstate.PrescriptionError as x:
                        if e.pop('fail', None) is None:
                            notes.append('unexpected %r' % x)
                    except OSError as x:
                        notes.append('oserror %r' % x)
                        e.pop('fail', None)
                else:
                    notes.append('three failures')
                    out.append(None)
            if s['end']:
                proper.prop_end_savestate()
                before = set(glob.glob('*.npz'))
                left = glob.glob('*' + notes[-1 if notes[-1].startswith('_') else
                                           max(k for k, v in enumerate(notes)
                                               if v.startswith('_'))] + '*.npz')
                if left:
                    notes.append('left %r' % left)
                # nothing is saved any more, and nothing of it used
                out.append(one(s, dict(s['runs'][-1], back=50., fail=None), True))
                if not set(glob.glob('*.npz')) <= before:
                    notes.append('left after the end')
    except F.SimCrash:
        notes.append('died')
    return res, notes


def reference(sessions):
    return [[one(s, e, False) for e in s['runs']
             + ([dict(s['runs'][-1], back=50., fail=None)] if s['end'] else [])]
            for s in sessions]


def yielder(n):
    s, t = S._task()
    if s is not None and t is not None:
        s.yield_(hot=True)


def run(cfg, ctx):
    import multiprocessing
    from falco import proper
    cwd = os.path.join(ctx.scratch, 'cwd')
    os.makedirs(cwd)
    os.chdir(cwd)
    for name in ('mine.npz', '_prop_savestate', '_0_prop_savestate', 'notes.txt'):
        with open(name, 'w') as f:
            f.write('keep')
    for proc in cfg['procs']:
        for s in proc:
            for e in s['runs']:
                if 'lams' in e:
                    with open('%s.dat' % '_'.join('%g,%g' % (a, b) for a, b in e['lams']), 'w') as f:
                        f.write(''.join('%.12g %.12g\n' % (a, b) for a, b in e['lams']))
    proper.save_state = 0
    refs = [reference(p) for p in cfg['procs']]
    proper.save_state = 1

    def master():
        if len(cfg['procs']) == 1:
            return [process(cfg['procs'][0])]
        pool = multiprocessing.Pool(len(cfg['procs']))
        r = pool.map(process, cfg['procs'], chunksize=1)
        pool.close()
        pool.join()
        return r

    def go(fs):
        proper.save_state_lam = []
        fs.watch = yielder
        with fs:
            return ctx.sim(master, max_steps=2000000, tick=cfg['tick'],
                           clock_jumps={a: b for a, b in cfg['jumps']})

    def check(r, fs):
        for p, (res, notes) in enumerate(r):
            for n in notes:
                if n.startswith('left'):
                    # the power may go in the middle of the removal
                    ctx.fail('files-left', n)
                if n.startswith(('unexpected', 'three')):
                    ctx.fail('run-failed', n)
                if n.startswith('oserror') and not (fs.fired and fs.fired[0] in ('enospc', 'eio')):
                    ctx.fail('run-failed', n)
            if len(res) != len(cfg['procs'][p]) and 'died' not in notes:
                ctx.fail('run-failed', 'process %d stopped early: %r' % (p, notes))
            for j, out in enumerate(res):
                for k, got in enumerate(out):
                    if got is None:
                        continue
                    for (a, da), (b, db) in zip(got, refs[p][j][k]):
                        ctx.close(a, b, 'state', 'process %d session %d run %d' % (p, j, k))
                        ctx.close(da, db, 'sampling', 'process %d session %d run %d' % (p, j, k))
                        ctx.digest(np.asarray(a))
                    if len(got) != len(refs[p][j][k]):
                        ctx.fail('count', repr((len(got), len(refs[p][j][k]))))
        for name in ('mine.npz', '_prop_savestate', '_0_prop_savestate', 'notes.txt'):
            if not os.path.exists(name):
                ctx.fail('removed-other-file', name)
    if cfg['fault']:
        fs = F.FaultyFS(cwd)
        check(go(fs), fs)
        kind, frac, seed = cfg['fault']
        n = fs.n
        fs = F.FaultyFS(cwd, at=F.pick(frac, n), kind=kind, seed=seed)
        r = None
        try:
            r = go(fs)
        except OSError as e:        # from the removal, or a nested failure
            if not fs.fired:
                raise
        except (S.SimDeadlock, F.SimCrash):
            if not fs.fired or fs.kind not in ('worker', 'crash'):
                raise               # a worker of a pool that is killed stalls the pool
        if fs.fired:
            ctx.fault('%s at %s' % fs.fired)
        if r is not None:
            check(r, fs)
    # (again, in the same directory, possibly with the same process numbers)
    fs = F.FaultyFS(cwd)
    check(go(fs), fs)
    ctx.stat('sessions', sum(map(len, cfg['procs'])))
    if len(cfg['procs']) > 1 or any('multi' in e for s in cfg['procs'][0] for e in s['runs']):
        ctx.nontrivial = True
