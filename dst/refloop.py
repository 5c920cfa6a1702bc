"""A small executable reference of the wavefront-control trial.

It uses the code under test for optics (models, images, estimates, Jacobian of
a full actuator set) and states the control logic on its own: the schedule,
when to re-linearise, which actuators are controlled, the regularised solution,
the choice of the best trial, the actuator constraints and the records.
"""
import numpy as np


def expand(rows):
    """Meaning of the schedule rows, iteration by iteration."""
    out, relin, new = [], False, False
    for n, reg, dms, rl, gs in rows:
        relin, new = relin or rl == 1, new or gs == 1
        for _ in range(n):
            out.append(dict(dms=[int(c) for c in str(dms)], reg=complex(*reg),
                            relin=relin, grid=new))
            relin = new = False
    return out


def trial(falco, mp, Nitr=None, near=None, rows=None):
    """Run a trial on mp.  Returns a dict of histories."""
    Nitr = mp.Nitr if Nitr is None else Nitr
    planned = mp.controller.lower() == 'plannedefc'
    plan = expand(rows) if planned else [
        dict(relin=it in [int(x) for x in mp.relinItrVec]) for it in range(Nitr)]
    h = {k: [] for k in ('V1', 'V2', 'Inorm', 'reg', 'dms', 'relin', 'Nele')}
    ev = falco.config.Object()
    act = {}
    G = {}
    best = None
    prev = None
    for it in range(Nitr):
        if planned:
            mp.dm_ind = np.array(plan[it]['dms'])
        dms = [k for k in (1, 2) if k in [int(x) for x in mp.dm_ind]]
        h['V1'].append(mp.dm1.V.copy())
        h['V2'].append(mp.dm2.V.copy())
        falco.imaging.calc_psf_norm_factor(mp)
        falco.setup.falco_set_jacobian_modal_weights(mp)
        changed = prev is not None and sorted(prev) != dms
        relin = it == 0 or changed or plan[it]['relin']
        cull = it == 0 or changed
        if relin:
            if cull:
                act = {k: np.arange(getattr(mp, 'dm%d' % k).NactTotal) for k in dms}
                set_act(mp, act)
            G = linearize(falco, mp, dms)
            if cull:
                for k in dms:
                    dm = getattr(mp, 'dm%d' % k)
                    s = np.sum(np.mean(np.abs(G[k])**2, axis=2), axis=0)
                    keep = set(np.nonzero(s/s.max() >= 10**mp.logGmin)[0].tolist())
                    keep |= set(int(x) for x in np.ravel(dm.tied))
                    act[k] = np.array(sorted(keep))
                    G[k] = G[k][:, act[k], :]
                set_act(mp, act)
        h['relin'].append(relin)
        h['dms'].append(dms)
        prev = dms
        j = falco.config.Object()
        for k in dms:
            setattr(j, 'G%d' % k, G[k])
        ev.Itr = it
        falco.est.wrapper(mp, ev, j)
        h['Inorm'].append(np.mean(ev.Im[mp.Fend.corr.maskBool]))
        # ---- control
        A, b = normal_equations(mp, G, dms, ev.Eest)
        h['Nele'].append(len(b))
        grid = [(r, f) for f in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
        if planned:
            want = plan[it]['reg']
            new = plan[it]['grid']
            if new:
                c = search(falco, mp, ev, A, b, act, dms, grid, near)
                best = c[:2]
            if want.imag != 0:
                r = best[0] + want.real
            else:
                r = want.real
            if not (new and want.imag != 0 and want.real == 0):
                # the gain of the latest grid search, whose default is 1
                c = search(falco, mp, ev, A, b, act, dms,
                           [(r, best[1] if best else 1.)], None)
            h['reg'].append(r)
        else:
            c = search(falco, mp, ev, A, b, act, dms, grid, near)
            h['reg'].append(c[0])
        for k in dms:
            dm = getattr(mp, 'dm%d' % k)
            dm.V = constrain(dm, dm.V + c[2][k])
    h['V1'].append(mp.dm1.V.copy())
    h['V2'].append(mp.dm2.V.copy())
    return h


def linearize(falco, mp, dms):
    """The Jacobian; each tied actuator moves with the one it follows."""
    old = {}
    for k in dms:
        dm = getattr(mp, 'dm%d' % k)
        dm.V = constrain(dm, dm.V)
        old[k] = dm.tied, dm.pinned, dm.Vpinned
        dm.tied = np.zeros((0, 2), dtype=int)
        dm.pinned, dm.Vpinned = np.zeros(0), np.zeros(0)
    jac = falco.model.jacobian(mp)
    G = {}
    for k in dms:
        dm = getattr(mp, 'dm%d' % k)
        dm.tied, dm.pinned, dm.Vpinned = old[k]
        G[k] = np.array(getattr(jac, 'G%d' % k))
        at = {int(a): i for i, a in enumerate(dm.act_ele)}
        # commands V become M V when ties are enforced
        M = np.eye(len(at))
        for a, b in np.reshape(dm.tied, (-1, 2)).astype(int):
            if a in at and b in at:
                M[at[b]] = M[at[a]]
        G[k] = np.einsum('pai,ab->pbi', G[k], M)
    return G


def set_act(mp, act):
    for k in (1, 2):
        dm = getattr(mp, 'dm%d' % k)
        if k in act:
            dm.act_ele = act[k].copy()
            dm.Nele = len(act[k])
        else:
            dm.Nele = 0


def normal_equations(mp, G, dms, Eest):
    n = sum(G[k].shape[1] for k in dms)
    A = np.zeros((n, n))
    b = np.zeros(n)
    for m in range(mp.jac.Nmode):
        w = mp.WspatialVec[:, mp.jac.star_inds[m]]
        g = np.hstack([G[k][:, :, m] for k in dms])*w[:, None]
        A += mp.jac.weights[m]*np.real(g.conj().T @ g)
        b += mp.jac.weights[m]*np.real(g.conj().T @ (w*Eest[:, m]))
    return A, b


def search(falco, mp, ev, A, b, act, dms, grid, near):
    """Best of the trials: (log10reg, dmfac, {dm: delta command})."""
    val, out = [], []
    V0 = {k: getattr(mp, 'dm%d' % k).V.copy() for k in dms}
    for r, f in grid:
        u = -f*np.linalg.solve(A + 10.**r*np.max(np.diag(A))*np.eye(len(b)), b)
        d, i = {}, 0
        for k in dms:
            dm = getattr(mp, 'dm%d' % k)
            v = np.zeros(dm.NactTotal)
            v[act[k]] = dm.weight*u[i:i + len(act[k])]
            i += len(act[k])
            d[k] = v.reshape(V0[k].shape)
            dm.V = V0[k] + d[k]
        if mp.ctrl.flagUseModel:
            Enew = fields(falco, mp)
            for k in dms:
                getattr(mp, 'dm%d' % k).V = V0[k].copy()
            E = [ev.Eest[:, mode(mp, s)] + e - o for s, (e, o) in
                 enumerate(zip(Enew, fields(falco, mp)))]
            val.append(sum(w*np.mean(np.abs(e)**2) for w, e in zip(
                np.ravel(mp.sbp_weights), E)))
        else:
            im = falco.imaging.get_summed_image(mp)
            val.append(np.mean(im[mp.Fend.corr.maskBool]))
        for k in dms:
            getattr(mp, 'dm%d' % k).V = V0[k].copy()
        out.append((r, f, d))
    if near is not None:
        s = np.sort(val)
        if len(s) > 1 and s[1] - s[0] < 1e-5*abs(s[-1]):
            near.append(1)
    return out[int(np.argmin(val))]


def mode(mp, si):
    return int(np.nonzero((mp.jac.sbp_inds == si) & (mp.jac.zern_inds == 1) &
                          (mp.jac.star_inds == 0))[0][0])


def fields(falco, mp):
    mv = falco.config.ModelVariables()
    mv.whichSource = 'star'
    E = []
    for si in range(mp.Nsbp):
        mv.sbpIndex = si
        E.append(falco.model.compact(mp, mv)[mp.Fend.corr.maskBool])
    return E


def constrain(dm, V):
    """Dead actuators do not move, limits, pinned and tied actuators."""
    V = V.ravel().copy()
    V[list(dm.dead)] = 0.
    bias = np.broadcast_to(dm.biasMap, dm.V.shape).ravel()
    if not hasattr(dm, 'ref_railed'):
        dm.ref_railed = {int(a): v for a, v in zip(dm.pinned, dm.Vpinned)}
    for a in range(V.size):
        if a in dm.ref_railed:      # pinned actuators keep their value
            continue
        if V[a] + bias[a] < dm.Vmin:
            dm.ref_railed[a] = dm.Vmin - bias[a]
        elif V[a] + bias[a] > dm.Vmax:
            dm.ref_railed[a] = dm.Vmax - bias[a]
    for a, v in dm.ref_railed.items():
        V[a] = v
    dm.pinned = np.array(list(dm.ref_railed), dtype=float)
    dm.Vpinned = np.array(list(dm.ref_railed.values()), dtype=float)
    for a, b in np.reshape(dm.tied, (-1, 2)).astype(int):
        V[b] = V[a]
    return V.reshape(dm.V.shape)
