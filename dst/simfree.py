"""A PROPER prescription without options."""
import falco.proper as proper


def simfree(lam, n):
    wf = proper.prop_begin(0.04, lam, n, 0.5)
    proper.prop_circular_aperture(wf, 0.02)
    proper.prop_define_entrance(wf)
    proper.prop_zernikes(wf, [5, 7], [9e-9, 4e-9])
    proper.prop_lens(wf, 0.8)
    proper.prop_propagate(wf, 0.8)
    return proper.prop_end(wf, NOABS=True)
