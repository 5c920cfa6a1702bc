"""A small PROPER prescription used as the full model of simulated runs."""
import numpy as np
import falco.proper as proper


def simpresc(lam, n, PASSVALUE=None):
    pv = PASSVALUE or {}
    wf = proper.prop_begin(2.4, lam, n, 0.75)
    proper.prop_circular_aperture(wf, 1.2)
    proper.prop_define_entrance(wf)
    ax = np.arange(n) - n//2
    x, y = np.meshgrid(ax/n, ax/n)
    pol = float(pv.get('polaxis', 0))
    if pol:
        proper.prop_add_phase(wf, 8e-9*pol*(x*x - y*y + 0.5*x))
    zi = np.atleast_1d(pv.get('zindex', np.array([])))
    zv = np.atleast_1d(pv.get(pv.get('sim_zname', 'zval_m'), np.array([])))
    if zi.size:
        proper.prop_zernikes(wf, zi.astype(int), zv.astype(float))
    for k, name in ((1., 'dm1'), (0.7, 'dm2')):
        if pv.get('use_' + name, False):
            surf = np.asarray(pv[name], dtype=float)
            m = surf.shape[0]
            big = np.kron(surf, np.ones((2, 2)))
            out = np.zeros((n, n))
            o = (n - 2*m)//2
            out[o:o+2*m, o:o+2*m] = big
            proper.prop_add_phase(wf, 2*k*out)
    proper.prop_propagate(wf, 0.5)
    proper.prop_circular_obscuration(wf, 0.3)
    (e, dx) = proper.prop_end(wf, NOABS=True)
    # to the final focal plane by a matrix DFT; tilt of an off-axis source
    nxi = int(pv.get('sim_nxi', 18))
    res = float(pv.get('sim_res', 2.0))
    l0 = float(pv.get('sim_lambda0', lam))
    xi = (np.arange(nxi) - nxi//2)/res
    d = 0.75*n                      # beam diameter in pixels
    u = ax/d
    K = np.exp(-2j*np.pi*np.outer(xi, u)*l0/lam)
    xo, yo = pv.get('xoffset', 0.), pv.get('yoffset', 0.)
    e = e*np.exp(-2j*np.pi*(xo*x + yo*y)*n/d*l0/lam)
    F = K @ e @ K.T*l0/lam
    if pv.get('use_fpm', True):
        r = np.hypot(*np.meshgrid(xi, xi))
        F = F*(1 - 0.6*np.exp(-(r/2.)**2))
    return F, dx
