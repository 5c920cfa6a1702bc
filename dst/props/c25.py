"""What a call gives does not depend on what was done before."""
import copy
import os
import pickle

import numpy as np

from props import common as C
import faults as F

ID = 'C25'
QUICK = 160
RULE = ('a run counts when at least two calls were made in one process; distinct '
        'by (history, failing call)')
REAL = ('falco.mask, falco.hexsegmirror, falco.proper (prop_run, prop_run_multi, '
        'shapes, saved states), model set-up, image and whole trial')
STUB = ('prescription dst/simstate.py; prop_run_multi workers are simulated '
        'processes; failures are injected into PROPER calls')

# calls that are made to fail, at a seeded count
TARGETS = ('prop_begin', 'prop_ellipse', 'prop_rectangle', 'prop_circular_aperture',
           'prop_circular_obscuration', 'prop_elliptical_obscuration', 'prop_lens',
           'prop_rectangular_obscuration', 'prop_propagate', 'prop_end', 'prop_polygon',
           'prop_irregular_polygon', 'prop_define_entrance', 'prop_zernikes')


def gen_mask(rng):
    cen = rng.choice(['pixel', 'interpixel'])
    f = rng.choice(['falco_gen_pupil_Simple', 'falco_gen_pupil_Simple', 'gen_annular_fpm',
                    'gen_bowtie_fpm', 'gen_bowtie_lyot_stop', 'falco_gen_DM_stop',
                    'falco_gen_ellipse', 'falco_gen_pupil_customHex', 'falco_gen_SW_mask',
                    'falco_gen_pupil_Roman_CGI_20200513', 'falco_gen_pupil_WFIRST_CGI_180718',
                    'falco_gen_pupil_LUVOIR_A_final', 'falco_gen_pupil_LUVOIR_B'])
    n = rng.choice([16, 20, 24])
    sh = rng.choice([0., 0.03])
    if f == 'falco_gen_pupil_Simple':
        a = {'Nbeam': n, 'Npad': n + 8, 'OD': 1., 'ID': rng.choice([0, 0.2]), 'centering': cen,
             'xShear': sh, 'yShear': rng.choice([0., 0.05]), 'clocking': rng.choice([0., 20.])}
        if rng.random() < 0.6:
            a.update(wStrut=0.05, angStrut=[0., 120., 240.][:rng.choice([1, 3])])
        if rng.random() < 0.2:
            a['flagHG'] = True
    elif f == 'gen_annular_fpm':
        a = {'pixresFPM': 3., 'rhoInner': 2., 'rhoOuter': rng.choice([5., np.inf]),
             'FPMampFac': rng.choice([0., 0.1]), 'centering': cen, 'xOffset': sh*5}
    elif f == 'gen_bowtie_fpm':
        a = {'ang': rng.choice([60., 120.]), 'pixresFPM': 3., 'rhoInner': 2., 'rhoOuter': 5.,
             'centering': cen, 'clocking': rng.choice([0., 30.])}
    elif f == 'gen_bowtie_lyot_stop':
        a = {'Nbeam': n, 'ID': 0.3, 'OD': 0.85, 'ang': rng.choice([90., 115.]),
             'centering': cen, 'xShear': sh, 'clocking': rng.choice([0., 90.])}
    elif f == 'falco_gen_DM_stop':
        return [f, [0.1, rng.choice([1.5, 2.]), cen]]
    elif f == 'falco_gen_ellipse':
        a = {'Nbeam': n, 'Narray': n + 6, 'radiusX': 0.4, 'radiusY': rng.choice([0.3, 0.5]),
             'centering': cen, 'xShear': sh, 'clockingDegrees': rng.choice([0., 15.])}
    elif f == 'falco_gen_pupil_customHex':
        a = {'Nbeam': n, 'Npad': 32, 'OD': 1., 'ID': rng.choice([0., 0.2]), 'wGap': 0.6,
             'numRings': 1, 'missingSegments': [1]*7}
        if rng.random() < 0.5:
            a.update(wStrut=0.05, angStrut=[30., 150.])
        else:
            a.update(wStrut=0., angStrut=[])
    elif f == 'falco_gen_SW_mask':
        a = {'pixresFP': 2., 'rhoInner': 2., 'rhoOuter': 5., 'angDeg': rng.choice([120., 180.]),
             'whichSide': rng.choice(['lr', 'r', 'top']), 'centering': cen,
             'shape': rng.choice(['circle', 'square', 'D'])}
    elif f.startswith('falco_gen_pupil_LUVOIR'):
        a = {'Nbeam': n, 'centering': cen, 'clock_deg': rng.choice([0., 10.])}
        if f.endswith('final') and rng.random() < 0.4:
            a.update(flagLyot=True, ID=0.2, OD=0.9)
    else:
        ch = {}
        if rng.random() < 0.5:
            ch['xShear'] = sh
        if rng.random() < 0.3:
            ch['clock_deg'] = 15.
        if rng.random() < 0.4:
            ch.update(flagLyot=True, ID=0.4, OD=0.9)
            ch['wStrut'] = 0.04
        args = [n, cen]
        if ch or rng.random() < 0.3:
            args.append(ch)
        return [f, args]
    return [f, [a]]


def gen_run(rng):
    return {'n': rng.choice([32, 64]), 'lam': rng.choice([0.5, 0.6]),
            'pv': {'save': False, 'obsc': rng.choice([0, 0.3]), 'occ': rng.choice([0, 1.5]),
                   'ratio': rng.choice([0.4, 0.5]), 'at': rng.choice([0, 2, 3]),
                   'back': rng.choice([0., 40.]), 'noabs': rng.random() < 0.7},
            'flags': {k: True for k in ('QUIET', 'PHASE_OFFSET', 'TABLE', 'VERBOSE',
                                        'PRINT_INTENSITY') if rng.random() < 0.35}}


def gen(rng, i):
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5, 6])):
        k = rng.random()
        if k < 0.4:
            op = {'op': 'mask', 'a': gen_mask(rng)}
        elif k < 0.6:
            op = {'op': 'run', 'a': gen_run(rng)}
        elif k < 0.7:
            op = {'op': 'multi', 'a': gen_run(rng)}
            op['a']['flags'] = {x: True for x in op['a']['flags'] if x in ('QUIET', 'PHASE_OFFSET')}
            op['ncpus'] = rng.choice([1, 2, 3])
        elif k < 0.78:
            op = {'op': 'session', 'a': gen_run(rng)}
        elif k < 0.9:
            m = C.gen_model(rng)
            m['Nsbp'] = 2 if m['coro'] == 'HLC' else 1
            m['Nwpsbp'] = 1
            op = {'op': 'image', 'a': m, 'par': rng.random() < 0.3}
        else:
            m = C.gen_loop_model(rng, Nitr=(1,))
            op = {'op': 'trial', 'a': m}
        if rng.random() < 0.3:
            op['fail'] = rng.random()
        ops.append(op)
    # the same call again at the end, when everything else has been done
    ops.append({k: v for k, v in ops[rng.randrange(len(ops))].items() if k != 'fail'})
    cfg = {'ops': ops, 'sub': rng.choice([11, 11, 11, 5]), 'sched': C.sched(rng)}
    cfg['sched']['gran'] = 'none'
    return cfg


def shrink(cfg):
    for k in range(len(cfg['ops'])):
        if len(cfg['ops']) > 1:
            yield dict(cfg, ops=cfg['ops'][:k] + cfg['ops'][k+1:])
    for k, op in enumerate(cfg['ops']):
        if 'fail' in op:
            yield dict(cfg, ops=cfg['ops'][:k] + [{a: b for a, b in op.items() if a != 'fail'}]
                       + cfg['ops'][k+1:])
        if op['op'] in ('run', 'multi', 'session'):
            for f in op['a']['flags']:
                a = dict(op['a'], flags={x: 1 for x in op['a']['flags'] if x != f})
                yield dict(cfg, ops=cfg['ops'][:k] + [dict(op, a=a)] + cfg['ops'][k+1:])
    yield from C.shrink_keys(cfg, {'sub': 11})


def perform(ctx, op, tag):
    """One user call; returns a list of arrays."""
    import falco
    from falco import proper
    a = copy.deepcopy(op['a'])
    if op['op'] == 'mask':
        keep = copy.deepcopy(a[1])
        r = getattr(falco.mask, a[0])(*a[1])
        r = [np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))]
        same_args(ctx, a[0], keep, a[1])
        return r
    if op['op'] in ('run', 'multi', 'session'):
        pv = a['pv']
        keep = copy.deepcopy(pv)
        if op['op'] == 'run':
            f, dx = proper.prop_run('simstate', a['lam'], a['n'], PASSVALUE=pv, **a['flags'])
            r = [f, np.array(dx)]
        elif op['op'] == 'multi':
            pvs = [dict(pv, back=b) for b in (0., 20., 50.)]
            f, dx = proper.prop_run_multi('simstate', a['lam'], a['n'], PASSVALUE=pvs,
                                          NCPUS=op['ncpus'], **a['flags'])
            r = [f, dx]
        else:
            proper.prop_init_savestate()
            try:
                r = []
                for b in (0., 20., 50.):
                    f, dx = proper.prop_run('simstate', a['lam'], a['n'],
                                            PASSVALUE=dict(pv, save=True, back=b), **a['flags'])
                    r += [f, np.array(dx)]
            finally:
                proper.prop_end_savestate()
        same_args(ctx, 'simstate', [keep], [pv])
        return r
    mp, out = C.build(ctx, a, sub=tag, parallel=bool(op.get('par')))
    r = [np.asarray(mp.P1.compact.mask), np.asarray(mp.P4.compact.mask)]
    for k in (1, 2):
        dm = getattr(mp, 'dm%d' % k)
        if hasattr(dm, 'compact') and hasattr(dm.compact, 'mask'):
            r.append(np.asarray(dm.compact.mask))
        if k in mp.dm_ind:
            r.append(np.asarray(falco.dm.gen_surf_from_act(dm, dm.compact.dx, dm.compact.Ndm)))
    if op['op'] == 'image':
        falco.imaging.calc_psf_norm_factor(mp)
        r.append(falco.imaging.get_summed_image(mp))
        return r
    falco.wfsc.loop(mp, out)
    h = C.histories(out)
    return r + [h[k] for k in sorted(h) if k != 'serialDate']


def same_args(ctx, what, before, after):
    for b, x in zip(before, after):
        if isinstance(b, dict):
            for k in b:
                if k not in x or not np.array_equal(np.asarray(b[k], dtype=object),
                                                    np.asarray(x[k], dtype=object)):
                    ctx.fail('argument-changed', '%s: %s' % (what, k))


def isolated(ctx, op, k):
    """The same call in a process of its own that has done nothing else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            try:
                res = ('ok', ctx.sim(lambda: perform(ctx, op, 'iso%d' % k), sched={'seed': 0,
                                                                                 'strategy': {},
                                                                                 'gran': 'none',
                                                                                 'traces': []},
                                     max_steps=5000000))
            except BaseException as e:
                res = ('exc', type(e).__name__, str(e)[:200])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    if not blob:
        raise RuntimeError('no answer from the isolated call')
    return pickle.loads(blob)


def run(cfg, ctx):
    from falco import proper
    import contextlib
    import io
    cwd = os.path.join(ctx.scratch, 'cwd')
    os.makedirs(cwd)
    os.chdir(cwd)
    proper.prop_set_antialiasing(cfg['sub'])
    refs = [isolated(ctx, op, k) for k, op in enumerate(cfg['ops'])]
    targets = [(proper, t) for t in TARGETS]
    for k, (op, ref) in enumerate(zip(cfg['ops'], refs)):
        if ref[0] == 'exc':     # bad arguments: the same error at any time
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.sim(lambda: perform(ctx, op, 'h%d' % k), max_steps=5000000)
            except Exception as e:
                if type(e).__name__ != ref[1]:
                    ctx.fail('other-error', '%s instead of %s' % (type(e).__name__, ref[1]))
                ctx.stat('bad_arguments')
                continue
            ctx.fail('history-dependent', '%s raises %s only in a fresh process'
                     % (op['op'], ref[1]))
        calls = None
        if 'fail' in op:
            with F.Calls(targets) as c:
                with contextlib.redirect_stdout(io.StringIO()):
                    ctx.sim(lambda: perform(ctx, op, 'h%d' % k), max_steps=5000000)
            if c.n:
                calls = F.Calls(targets, at=F.pick(op['fail'], c.n))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if calls is not None:
                    with calls:
                        got = ctx.sim(lambda: perform(ctx, op, 'h%d' % k), max_steps=5000000)
                else:
                    got = ctx.sim(lambda: perform(ctx, op, 'h%d' % k), max_steps=5000000)
        except F.InjectedFault:
            ctx.fault('failing ' + calls.fired)
            continue
        if calls is not None and calls.fired:
            # handled inside; the result is not that of an undisturbed call
            ctx.fault('handled ' + calls.fired)
            continue
        if len(got) != len(ref[1]):
            ctx.fail('count', op['op'])
        for j, (x, y) in enumerate(zip(got, ref[1])):
            x, y = np.asarray(x), np.asarray(y)
            if x.dtype.kind not in 'biufc':
                continue
            fin = np.isfinite(y)
            if x.shape != y.shape or not np.array_equal(fin, np.isfinite(x)):
                ctx.fail('history-dependent', '%s %s: output %d' % (
                    op['op'], op['a'][0] if op['op'] == 'mask' else '', j))
            ctx.close(np.where(fin, x, 0), np.where(fin, y, 0), 'history-dependent',
                      'call %d: %s %s, output %d' % (
                          k, op['op'], op['a'][0] if op['op'] == 'mask' else '', j))
            ctx.digest(x)
        ctx.key(op['op'], op['a'][0] if op['op'] == 'mask' else '')
    ctx.nontrivial = True
    ctx.stat('calls', len(cfg['ops']))
