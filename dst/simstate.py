"""A PROPER prescription with a saved state, and one that may fail."""
import numpy as np
import falco.proper as proper


class PrescriptionError(RuntimeError):
    pass


def fail(pv, where):
    if pv.get('fail') == where:
        raise PrescriptionError(where)


def simstate(lam, n, PASSVALUE=None):
    pv = PASSVALUE or {}
    diam, fl = 0.04, 0.8
    wf = proper.prop_begin(diam, lam, n, pv.get('ratio', 0.5))
    fail(pv, 'begin')
    if not pv.get('save', True) or not proper.prop_is_statesaved(wf):
        # the part that takes long
        proper.prop_circular_aperture(wf, diam/2)
        if pv.get('obsc'):
            proper.prop_circular_obscuration(wf, pv['obsc']*diam/2)
        proper.prop_define_entrance(wf)
        proper.prop_zernikes(wf, [4, 6, 8], np.array([8e-9, 3e-9, 5e-9])*pv.get('front', 1.))
        fail(pv, 'front')
        if pv.get('at', 0) >= 1:
            proper.prop_propagate(wf, 0.3)
        if pv.get('at', 0) >= 2:
            proper.prop_lens(wf, fl)
        if pv.get('at', 0) >= 3:
            proper.prop_propagate(wf, fl*0.7)
        if pv.get('at', 0) >= 4:
            proper.prop_propagate(wf, fl*0.3)
    if pv.get('save', True):
        proper.prop_state(wf)
    fail(pv, 'state')
    at = pv.get('at', 0)
    if at < 1:
        proper.prop_propagate(wf, 0.3)
    ax = (np.arange(n) - n//2)/n
    if at < 2:
        proper.prop_add_phase(wf, pv.get('back', 0.)*1e-9*np.add.outer(ax, ax**2))
        proper.prop_lens(wf, fl)
    if at < 4:
        proper.prop_propagate(wf, fl*(0.3 if at == 3 else 1.))
    if pv.get('occ'):
        proper.prop_circular_obscuration(wf, pv['occ']*lam*fl/diam)
    if pv.get('mult'):
        proper.prop_multiply(wf, 1 + pv['mult']*np.add.outer(ax, 2*ax))
    proper.prop_propagate(wf, fl)
    proper.prop_lens(wf, fl)
    fail(pv, 'end')
    return proper.prop_end(wf, NOABS=bool(pv.get('noabs', True)))
