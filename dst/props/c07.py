"""Independent models can be used in concurrent threads."""
import copy
import threading

import numpy as np

from props import common as C
from props import c24

ID = 'C07'
QUICK = 160
RULE = ('a run counts when at least two models were used at once and two or more '
        'switches happened; distinct by (configurations, calculations, schedule)')
REAL = 'falco.imaging, falco.est, falco.ctrl, falco.zern, falco.model, falco.wfsc'
STUB = 'threads are scheduled by the simulator; worker processes are simulated'


def gen(rng, i):
    jobs = []
    for _ in range(rng.choice([2, 2, 3])):
        m = C.gen_loop_model(rng, Nitr=(1,), coros=('LC', 'LC', 'APLC', 'FLC', 'SPLC',
                                                    'vortex', 'HLC'))
        m['Nsbp'] = 1 if m['coro'] != 'HLC' else 2
        m['Nwpsbp'] = 1
        m['Nthreads'] = 2
        kinds = rng.sample(['image', 'norm', 'jacobian', 'perfect', 'zern', 'thput', 'sbp',
                            'loop'], rng.choice([1, 2]))
        if 'zern' in kinds:
            m['evalZ'], m['Rsens'] = [2, 3], [[2., 3.]]
        if 'jacobian' in kinds or 'loop' in kinds:
            m['Nact'] = 4
        m.update(C.gen_constraints(rng, 0.2) if m.get('Nact') != 4 else {})
        jobs.append({'model': m, 'kinds': kinds, 'par': rng.random() < 0.25})
    return {'jobs': jobs, 'sched': C.sched(rng)}


def shrink(cfg):
    for k in range(len(cfg['jobs'])):
        if len(cfg['jobs']) > 2:
            yield dict(cfg, jobs=cfg['jobs'][:k] + cfg['jobs'][k+1:])
        j = cfg['jobs'][k]

        def put(j2):
            return dict(cfg, jobs=cfg['jobs'][:k] + [j2] + cfg['jobs'][k+1:])
        for x in j['kinds']:
            if len(j['kinds']) > 1:
                yield put(dict(j, kinds=[y for y in j['kinds'] if y != x]))
        if j['par']:
            yield put(dict(j, par=False))
        for m in C.shrink_model(j['model']):
            yield put(dict(j, model=m))


def job(falco, kinds, mp, out):
    r = []
    for k in kinds:
        if k == 'loop':
            falco.wfsc.loop(mp, out)
            h = C.histories(out)
            r += [h[x] for x in sorted(h) if x != 'serialDate']
        else:
            r += c24.work(falco, k, mp, None)
    return r


def run(cfg, ctx):
    import falco
    models = []
    for k, j in enumerate(cfg['jobs']):
        mp, out = C.build(ctx, j['model'], sub='m%d' % k)
        falco.imaging.calc_psf_norm_factor(mp)
        falco.setup.falco_set_jacobian_modal_weights(mp)
        models.append((mp, out))
    refs = [job(falco, j['kinds'], *copy.deepcopy(mo)) for j, mo in zip(cfg['jobs'], models)]
    for j, (mp, out) in zip(cfg['jobs'], models):
        mp.flagParallel = j['par']
    got = [None]*len(models)
    err = [None]*len(models)

    def one(k):
        try:
            got[k] = job(falco, cfg['jobs'][k]['kinds'], *models[k])
        except Exception as e:
            err[k] = e

    def main():
        ts = [threading.Thread(target=one, args=(k,)) for k in range(len(models))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    ctx.sim(main, max_steps=20000000)
    for k, (g, r) in enumerate(zip(got, refs)):
        if err[k] is not None:
            raise err[k]
        for n, (a, b) in enumerate(zip(g, r)):
            a, b = np.asarray(a), np.asarray(b)
            fin = np.isfinite(b)
            if a.shape != b.shape or not np.array_equal(fin, np.isfinite(a)):
                ctx.fail('differs', 'model %d (%s), output %d' % (k, cfg['jobs'][k]['kinds'], n))
            ctx.close(np.where(fin, a, 0), np.where(fin, b, 0), 'differs', 'model %d (%s), '
                      'output %d' % (k, cfg['jobs'][k]['kinds'], n), rtol=1e-7)
            ctx.digest(a)
