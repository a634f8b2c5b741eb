"""The public queries, as functions (object, selection) -> result, with fixed other arguments."""
import numpy as np
import worlds

R6 = np.logspace(-.9, .1, 6)
RF = np.logspace(-1.4, 0, 12)
KZ = worlds.katz([.4, .7, 1., 1.3], 1e-2, 60, 5)
KS = worlds.katz([.5, .8, 1.2], 1e-2, 60, 5, True, True)


def prof(n, r=RF, start=0):
    """n different NFW profiles with a little structure"""
    return np.array([(3. + k) / ((r / (.2 + .1 * k)) * (1 + r / (.2 + .1 * k)) ** 2) for k in range(start, start + n)]).reshape(n, len(r))


NFW = {'profile': 'nfw', 'min_method': 'Nelder-Mead'}
EIN = {'profile': 'einasto', 'alpha': .2, 'min_method': 'Nelder-Mead'}

# results with one row per selected object
ROWS = {
    'masses': lambda o, s: o.getMassesCenters(s),
    'sph': lambda o, s: o.estDensProfs(R6, s),
    'kernel': lambda o, s: o.estDensProfs(R6, s, direct_binning=False),
    'ell': lambda o, s: o.estDensProfs(R6, s, spherical=False, katz_config=KZ),
    'local': lambda o, s: o.getShapeCatLocal(s, katz_config=KZ),
    'localS': lambda o, s: o.getShapeCatLocal(s, katz_config=KS),
    'global': lambda o, s: o.getShapeCatGlobal(s, katz_config=KZ),
    'globalR': lambda o, s: o.getShapeCatGlobal(s, katz_config=KS),
}
FITS = {
    'fit': lambda o, s: o.fitDensProfs(prof(len(s)), RF, NFW, s),
    'conc': lambda o, s: o.estConcentrations(prof(len(s)), RF, EIN, s),
}
VEL = {
    'vlocal': lambda o, s: o.getShapeCatVelLocal(s, katz_config=KZ),
    'vglobal': lambda o, s: o.getShapeCatVelGlobal(s, katz_config=KZ),
}
DUMPS = {
    'dumpLocal': lambda o, s: o.dumpShapeCatLocal(s, katz_config=KZ),
    'dumpGlobal': lambda o, s: o.dumpShapeCatGlobal(s, katz_config=KZ),
}
VDUMPS = {
    'dumpVLocal': lambda o, s: o.dumpShapeVelCatLocal(s, katz_config=KZ),
    'dumpVGlobal': lambda o, s: o.dumpShapeVelCatGlobal(s, katz_config=KZ),
}
PLOTS = {
    'plotDens': lambda o, s: o.plotDensProfs(prof(len(s)), RF, prof(len(s), RF[2:]), RF[2:], NFW, 2, s),
    'plotGlobalEps': lambda o, s: o.plotGlobalEpsHist(4, s),
    'plotLocalEps': lambda o, s: o.plotLocalEpsHist(.5, 4, s),
    'plotLocalT': lambda o, s: o.plotLocalTHist(4, .5, s, katz_config=KZ),
    'plotGlobalT': lambda o, s: o.plotGlobalTHist(4, s, katz_config=KZ),
    'plotShapeProfs': lambda o, s: o.plotShapeProfs(2, s, katz_config=KZ),
    'vizLocal': lambda o, s: o.vizLocalShapes(s, katz_config=KZ),
    'vizGlobal': lambda o, s: o.vizGlobalShapes(s, katz_config=KZ),
}


def same(a, b, rtol=0., atol=0.):
    """equality of results, NaN = NaN; rtol 0 = exactly equal"""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names:
        return all(same(a[f], b[f], rtol, atol) for f in a.dtype.names)
    if a.dtype.kind != 'f':
        return bool(np.all(a == b))
    with np.errstate(invalid='ignore'):
        return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))))


AX = ('minor', 'inter', 'major')


def close_rows(a, b, rtol, scale=1.):
    """equality up to rounding; eigenvectors up to sign"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names:
        for f in a.dtype.names:
            if f in AX:
                d = np.abs(np.sum(a[f] * b[f], axis=-1))
                if not same(np.isnan(a[f]), np.isnan(b[f])) or np.any(np.abs(d[~np.isnan(d)] - 1) > max(rtol, 1e-6)):
                    return False
            elif not same(a[f], b[f], rtol, rtol * scale if f == 'centre' else 0.):
                return False
        return True
    return same(a, b, rtol)
