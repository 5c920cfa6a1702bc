"""The control Jacobian computed in parallel equals the serial one."""
import copy
import numpy as np
from props import common as C

ID = 'C03'
QUICK = 260
RULE = ('a run counts when at least two context switches happened inside the '
        'parallel section; distinct by (configuration, active actuators, '
        'schedule hash)')
REAL = 'falco.model.jacobian and falco.model.jacobians, falco.dm, falco.prop, executors'
STUB = 'OS threads are serialised by the seeded scheduler'


def gen(rng, i):
    m = C.gen_model(rng, coros=['LC', 'APLC', 'HLC', 'FLC', 'SPLC', 'vortex', 'proper'])
    m['Nsbp'] = rng.choice([1, 1, 2])
    m.pop('Nwpsbp', None)
    if m.get('pupilE'):
        m.pop('pupilE')
    if rng.random() < 0.4:
        m['zerns'] = rng.choice([[1, 2], [1, 3]])
    if m.get('layout') != 'proper' and m['coro'] != 'HLC' and rng.random() < 0.2:
        m['stars'] = 2
    act = []
    for k in range(2):
        r = rng.random()
        n = rng.randrange(1, 7)
        act.append(sorted(rng.sample(range(36), n)))
    ties = []
    for k in range(2):
        t = []
        if rng.random() < 0.4 and len(act[k]) >= 2:
            t = [rng.sample(act[k], 2)]
        ties.append(t)
    return {'model': m, 'act': act, 'ties': ties, 'twice': rng.random() < 0.2,
            'sched': C.sched(rng)}


def shrink(cfg):
    yield from C.shrink_std(cfg)
    yield from C.shrink_keys(cfg, {'twice': False, 'ties': [[], []]})
    for k in range(2):
        if len(cfg['act'][k]) > 1:
            a = list(cfg['act'])
            a[k] = a[k][1:]
            yield dict(cfg, act=a, ties=[[], []])


def run(cfg, ctx):
    import falco
    over = {}
    for k in (0, 1):
        if cfg['ties'][k]:
            over['tied%d' % (k+1)] = cfg['ties'][k]
    mp, _ = C.build(ctx, cfg['model'], **over)
    for k, dm in ((0, mp.dm1), (1, mp.dm2)):
        if any(mp.dm_ind == k + 1):
            dm.act_ele = np.array(cfg['act'][k])
            dm.Nele = dm.act_ele.size
    ref = falco.model.jacobian(copy.deepcopy(mp))
    mp.flagParallel = True

    def work():
        j = falco.model.jacobian(mp)
        if cfg['twice']:
            j = falco.model.jacobian(mp)
        return j
    got = ctx.sim(work)
    for n in ('G1', 'G2'):
        a, b = getattr(got, n), getattr(ref, n)
        ctx.digest(a)
        ctx.close(a, b, 'parallel-jacobian-differs', 'DM%s part' % n[1])
        if any(mp.dm_ind == int(n[1])) and not np.any(b):
            ctx.fail('jacobian-empty', n)
