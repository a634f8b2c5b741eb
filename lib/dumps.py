"""Worlds, shape settings and comparison shared by the checks on dumped catalogues."""
import numpy as np
import queries as Q, worlds

R = (.3, .2, .1)
HALOS = [(36, 4, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (9, 2, 1, .5, (.5, .4, .3), (.6, .1, .2), 4, None), (24, 3, 2, .7, (.9, .5, .45), (.995, .005, .4), 5, None)]
HALOS2 = [(28, 2, 1, .8, (.7, .5, .3), (.5, .5, .5), 7, R), (31, 3, 2, .6, (.9, .8, .3), (.2, .9, .4), 8, (1., .4, .2))]
KL = worlds.katz([.3, .6, .9, 1.3], 1e-2, 60, 8)
KG = worlds.katz([1.], 1e-2, 60, 8, True)
KINDS = {'local': ('getShapeCatLocal', 'dumpShapeCatLocal', KL), 'global': ('getShapeCatGlobal', 'dumpShapeCatGlobal', KG),
         'vlocal': ('getShapeCatVelLocal', 'dumpShapeVelCatLocal', KL), 'vglobal': ('getShapeCatVelGlobal', 'dumpShapeVelCatGlobal', KG)}


def close_dumped(a, b, u_scale):
    """a read back, b computed: equal to the written precision (7 digits after the point)"""
    if a.dtype != b.dtype or a.shape != b.shape:
        return False, 'layout %s %s / %s %s' % (a.dtype, a.shape, b.dtype, b.shape)
    for f in a.dtype.names:
        x, y = a[f], b[f]
        if x.dtype.kind != 'f':
            if not np.array_equal(x, y):
                return False, f
            continue
        if not Q.same(np.isnan(x), np.isnan(y)):
            return False, f + ' (undefined values)'
        ok = np.isnan(x) | (np.abs(x - y) <= 1.2e-7 * np.abs(y) + (1e-12 if f in Q.AX else 0))
        if not ok.all():
            return False, f
    return True, ''
