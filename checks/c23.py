"""C23 exported helpers: number formatting over every mantissa and exponent, density models, cosmology and sphere/axes helpers over grids, against their definitions."""
import itertools
import numpy as np
from mc import Violation

META = {"assumptions": ["numbers are formatted with two decimals and two exponent digits from -19 to 19, the documented range of eTo10"]}
SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}


def decode(s):
    """the number that a reader sees: 'm ✕ 10^e', 'm' or '10^e'"""
    s = s.replace('\u2800', '')
    m, x, e = s.partition('\u2715')
    if not x and s.startswith('10') and len(s) > 2 and (s[2] in SUP or s[2] == '⁻'):
        m, e = '1.00', s
    elif not x:
        return m, 0
    if not e.startswith('10') or len(e) < 3:
        raise ValueError(s)
    p = e[2:]
    sign = -1 if p[0] == '⁻' else 1
    p = p[1:] if sign < 0 else p
    if not p or any(ch not in SUP for ch in p):
        raise ValueError(s)
    return m, sign * int(''.join(SUP[ch] for ch in p))


def explore(X):
    import cosmic_profiles as cp

    def fmt(c):
        for k in range(c['lo'], c['hi']):
            m = c.get('sign', '') + '%d.%02d' % (k // 100, k % 100)
            for e in range(-19, 20):
                for E in 'eE':
                    st = '%s%s%s%02d' % (m, E, '-' if e < 0 else '+', abs(e))
                    X.step()
                    got = cp.eTo10(st)
                    try:
                        dec = decode(got)
                    except ValueError:
                        dec = None
                    if dec != (m, e):
                        raise Violation("eTo10(%r) gives %r, read as %s" % (st, got, dec))
                    X.ok()
                X.state('fmt', e)
            X.outcome('fmt', m)
        if cp.eTo10('%.2e' % 0.) not in ('0.00', '0'):
            raise Violation("eTo10 of zero gives %r" % cp.eTo10('%.2e' % 0.))

    MODELS = {
        'Einasto': (cp.getEinastoProf, ('rho_s', 'alpha', 'r_s'), lambda x, p: p['rho_s'] * np.exp(-2 / p['alpha'] * (x ** p['alpha'] - 1))),
        'NFW': (cp.getNFWProf, ('rho_s', 'r_s'), lambda x, p: p['rho_s'] / (x * (1 + x) ** 2)),
        'Hernquist': (cp.getHernquistProf, ('rho_s', 'r_s'), lambda x, p: p['rho_s'] / (x * (1 + x) ** 3)),
        'AlphaBetaGamma': (cp.getAlphaBetaGammaProf, ('rho_s', 'alpha', 'beta', 'gamma', 'r_s'), lambda x, p: p['rho_s'] / (x ** p['gamma'] * (1 + x ** p['alpha']) ** ((p['beta'] - p['gamma']) / p['alpha']))),
    }
    VAL = {'rho_s': (1., 3.7e5), 'r_s': (.2, 1., 30.), 'alpha': (.16, 1., 2.5), 'beta': (2., 3., 4.2), 'gamma': (0., 1., 1.4)}

    def models(c):
        f, names, ref = MODELS[c['model']]
        rs = np.array([1e-3, .03, .2, .99, 1., 1.5, 7., 100.])
        for vals in itertools.product(*[VAL[n] for n in names]):
            p = dict(zip(names, vals))
            before = dict(p)
            exp = ref(rs / p['r_s'], p)
            got = [np.asarray(f(rs, p), float), np.array([f(float(r), p) for r in rs]), np.asarray(f(rs[::-1].copy(), p), float)[::-1]]
            X.step(3)
            for g in got:
                if g.shape != exp.shape or not np.allclose(g, exp, rtol=1e-12, atol=0):
                    raise Violation("%s profile with %s at %s gives %s, expected %s" % (c['model'], p, rs, g, exp))
                X.ok()
            if p != before:
                raise Violation("the %s profile changes its parameters from %s to %s" % (c['model'], before, p))
            X.state('model', c['model'], vals)
        X.outcome('model', c['model'])

    def cosmo(c):
        rho = cp.getRhoCrit()
        # 3 H^2 / (8 pi G) for h = 1: 2.775e11 Msun/Mpc^3; constants rounded to three digits are accepted
        if not abs(rho / 2.775e11 - 1) < .01:
            raise Violation("critical density %g h^2 Msun/Mpc^3" % rho)
        for n in (1, 2, 64, 512):
            for L in (1., 40., 250.):
                if not np.isclose(cp.getMassDMParticle(n, L), rho * (L / n) ** 3, rtol=1e-12):
                    raise Violation("particle mass for N=%d L=%g: %g" % (n, L, cp.getMassDMParticle(n, L)))
                X.step(); X.ok(); X.state('mdm', n, L)
        for z in (0., .3, 1., 5., 30.):
            for om in (.05, .3089, .7, 1.):
                for ol in (0., .3, .6911):
                    x = om * (1 + z) ** 3 / (om * (1 + z) ** 3 + ol) - 1
                    exp = (18 * np.pi ** 2 + 82 * x - 39 * x * x) / (x + 1) - 1
                    got = cp.getDelta(z, om, ol)
                    if not np.isclose(got, exp, rtol=1e-12):
                        raise Violation("virial overdensity at z=%g, Omega_m=%g, Omega_L=%g: %g, expected %g" % (z, om, ol, got, exp))
                    X.step(); X.ok(); X.state('delta', z, om, ol)

    def axes(c):
        import matplotlib.pyplot as plt
        for lim in itertools.product([(-1., 2.), (0., .5), (3., 11.)], repeat=3):
            for inv in itertools.product((0, 1), repeat=3):
                fig = plt.figure()
                ax = fig.add_subplot(projection='3d')
                L = [l[::-1] if i else l for l, i in zip(lim, inv)]
                ax.set_xlim3d(L[0]); ax.set_ylim3d(L[1]); ax.set_zlim3d(L[2])
                cp.set_axes_equal(ax)
                got = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()], float)
                mid, half = np.mean(lim, axis=1), max(b - a for a, b in lim) / 2
                if not (np.allclose(got.mean(axis=1), mid) and np.allclose(np.abs(got[:, 1] - got[:, 0]) / 2, half)):
                    raise Violation("axes with limits %s become %s: unequal scales or moved centre" % (L, got.tolist()))
                plt.close(fig)
                X.step(); X.ok(); X.state('axes', lim, inv)
    X.bounds.update(mantissas=900, exponents="-19..19", letters=2, model_parameters="all combinations of 2-3 values each at 8 radii, scalar and array")

    def close(a, b, rtol=1e-9, atol=1e-12):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)

    def stats_(c):
        from cosmic_profiles.common import cosmo_tools as ct
        from scipy import stats as st
        from fractions import Fraction as F
        nan = float('nan')

        def chi(occ):
            """Pearson's statistic of a contingency table, exactly"""
            tot = sum(map(sum, occ))
            if tot == 0:
                return nan, nan, nan
            x = F(0)
            for row in occ:
                for j in range(len(occ[0])):
                    e = F(sum(row) * sum(o[j] for o in occ), tot)
                    if e:
                        x += (row[j] - e) ** 2 / e
            dof = (len(occ) - 1) * (len(occ[0]) - 1)
            return float(x), float(st.chi2.sf(float(x), dof)), dof

        def same(got, occ, why):
            X.step()
            X.state(('chi', tuple(map(tuple, occ))))
            if not close(got, chi(occ), 1e-7, 1e-9):
                raise Violation('%s: chi-square, p-value, degrees of freedom %s, by definition %s' % (why, tuple(got), chi(occ)))

        def bins(*samples):
            return [[int(sum(int(round(v * 9)) == b for v in dim)) for dim in s for b in range(10)] for s in samples]

        if c['what'] == 'table':
            r, k = c['shape']
            for cells in itertools.product(range(c['n']), repeat=r * k):
                occ = [list(cells[i * k:i * k + k]) for i in range(r)]
                same(ct.chiSquareToICore(np.array(occ)), occ, 'counts %s' % occ)
        if c['what'] == 'binned':
            lists = [l for n in range(3) for l in itertools.product((.02, .3, .36, .97), repeat=n)]
            for x, y in itertools.product(lists, repeat=2):
                same(ct.chiSquareToIMultiDim([list(x)], [list(y)]), bins([x], [y]), 'samples %s and %s' % (x, y))
                for x2, y2 in (((), (.3,)), ((.97,), (.02,)), ((.97, .3), (.97,))):
                    same(ct.chiSquareToIMultiDim([list(x), list(x2)], [list(y), list(y2)]), bins([x, x2], [y, y2]), 'samples %s and %s' % ((x, x2), (y, y2)))
        if c['what'] == 'curve':
            lo, hi, nb = c['grid']
            R = np.logspace(lo, hi, nb + 1)
            at = nb * hi // (hi - lo)   # grid points beyond the virial radius
            for q in itertools.product((.3, .97, nan), repeat=nb + 1):
                for r200 in ((1., 1.), (.25, 3.)):
                    q2 = [[.36] * (nb + 1), list(q[::-1])]
                    d1 = np.array([R * r200[0]])
                    d2 = np.array([R * r200[1], R * r200[0]])
                    d1[0, :1] *= 1.02
                    d2[0, :1] *= .98
                    last = nb + 1
                    if at:   # the outermost radius lies just within the range
                        d1[:, -1] *= .999
                        d2[:, -1] *= .999
                    got = ct.chiSquareToIShapeCurve(d1, np.array([q]), d2, np.array(q2), lo, hi, nb)
                    a = [[q[i]] if q[i] == q[i] else [] for i in range(last)]
                    b = [[v[i] for v in q2 if v[i] == v[i]] for i in range(last)]
                    same(got, bins(a, b), 'shape curves %s and %s' % (list(q), q2))
                    if at:   # a radius beyond the range does not count
                        d1[:, -1] *= 1.1
                        got = ct.chiSquareToIShapeCurve(d1, np.array([q]), d2, np.array(q2), lo, hi, nb)
                        same(got, bins(a[:-1] + [[]], b), 'shape curves %s (outermost radius out of range) and %s' % (list(q), q2))
        if c['what'] == 'ks':
            samples = [s for n in range(4) for s in itertools.combinations_with_replacement((0., 1., 2.5), n)]
            for x, y in itertools.product(samples, repeat=2):
                for perm in set(itertools.permutations(x)):
                    X.step()
                    X.state(('ks', perm, y))
                    d, p = ct.KSTest(list(perm), list(y))
                    if not x or not y:
                        if d == d or p == p:
                            raise Violation('KS test of %s and %s gives %s, %s; not-a-number expected without data' % (perm, y, d, p))
                        continue
                    D = max(abs(sum(v <= t for v in x) / len(x) - sum(v <= t for v in y) / len(y)) for t in x + y)
                    if not close(d, D) or not 0 <= p <= 1 or (x == y and p < 1 - 1e-9) or not close((d, p), st.ks_2samp(x, y)[:2], 1e-7):
                        raise Violation('KS test of %s and %s gives %s, %s; the largest distance of the distributions is %s' % (perm, y, d, p, D))
        if c['what'] == 'errors':
            bins_ = [list(s) for n in range(4) for s in itertools.product((.25, .5, 2.), repeat=n)]
            for i, a in enumerate(bins_):
                for b in ([], [1.], [.5, .25, 4.]):
                    for y in ([a, b], [b, a], [a]):
                        for how in ('bootstrap', 'SEM', 'median_quantile'):
                            X.step()
                            X.state((i, len(b), how))
                            why = '%s of %s' % (how, y)
                            try:
                                with np.errstate(all='ignore'):
                                    m, lo, hi = ct.getMeanOrMedianAndError([list(z) for z in y], how)
                            except Exception as e:
                                raise Violation('%s: %s: %s' % (why, type(e).__name__, e))
                            f = np.median if how == 'median_quantile' else np.mean
                            if not close(m, [f(z) if z else nan for z in y]):
                                raise Violation('%s: centre %s' % (why, m))
                            for k, z in enumerate(y):
                                if how == 'SEM':
                                    if len(z) > 1 and not close([lo[k], hi[k]], [np.std(z, ddof=1) / len(z) ** .5] * 2):
                                        raise Violation('%s: standard errors %s, %s' % (why, lo[k], hi[k]))
                                elif not z:
                                    if lo[k] == lo[k] or hi[k] == hi[k]:
                                        raise Violation('%s: errors %s, %s for an empty bin' % (why, lo[k], hi[k]))
                                elif how == 'bootstrap':
                                    span = max(z) - min(z)
                                    if not (lo[k] == hi[k] and 0 <= lo[k] <= .53 * span + 1e-12):
                                        raise Violation('%s: errors %s, %s of a mean' % (why, lo[k], hi[k]))
                                    if span and len(z) == 3 and lo[k] == 0:
                                        raise Violation('%s: no spread of the resampled means' % why)
                                elif not 0 <= lo[k] <= hi[k]:
                                    raise Violation('%s: errors %s, %s' % (why, lo[k], hi[k]))
        if c['what'] == 'mode':
            def mode(x, m, r):
                while True:
                    com = (x * m[:, None]).sum(0) / m.sum()
                    d = np.linalg.norm(x - com, axis=1)
                    x, m = x[d < r], m[d < r]
                    if len(x) < 5 or not d[d < r].any():
                        return com
                    r *= .83
            for pts in itertools.product((0., .5, .8, 3.), repeat=c['n']):
                x = np.outer(pts, (1., -.5, .25)) + (3., 4., 5.)
                for m in (np.ones(len(x)), np.arange(1., len(x) + 1)):
                    X.step()
                    X.state(('mode', pts, m[-1]))
                    a, b = x.copy(), m.copy()
                    try:
                        got = ct.calcMode(a, b, 4.)
                    except RecursionError as e:
                        raise Violation('mode of the points %s along a line: %s' % (pts, e))
                    if not close(got, mode(x, m, 4.)):
                        raise Violation('mode of the points %s along a line, masses %s: %s, by definition %s' % (pts, m, got, mode(x, m, 4.)))
                    if not (np.array_equal(a, x) and np.array_equal(b, m)):
                        raise Violation('calcMode changed its arguments')

    def geometry(c):
        """box helpers over every arrangement of a few points on a lattice of the box"""
        import cosmic_profiles.common.python_routines as pr
        import cosmic_profiles.common.cosmo_tools as ct
        if c['what'] == 'pbc':
            L = c['L']
            grid = np.arange(8) * L / 8
            if not hasattr(pr, 'respectPBCNoRef'):
                X.count('absent')
                return
            for pts in itertools.product(grid, repeat=c['n']):
                p = np.array(pts)
                x = np.stack((p, np.roll(p, 1), (p * 3 + L / 8) % L), 1)[:, c['axes']] + c.get('shift', 0.)
                x = x.astype(c['dt'])
                a = x.copy()
                X.step()
                X.state(('pbc', L, pts))
                got = pr.respectPBCNoRef(a, L)
                k = (got - x) / L
                if got.shape != x.shape or not np.allclose(k, np.round(k), atol=1e-5):
                    raise Violation('points %s in a box of %s become %s: not the same points of the box' % (x.tolist(), L, got.tolist()))
                if np.any(np.abs(got - got[0]) > L / 2 * (1 + 1e-6)):
                    raise Violation('points %s in a box of %s become %s: more than half a box away from the first one' % (x.tolist(), L, got.tolist()))
                if not np.array_equal(a, x):
                    raise Violation('respectPBCNoRef changed its argument')
                if not np.array_equal(pr.respectPBCNoRef(a, 0.0), x):
                    raise Violation('points %s without periodicity move' % x.tolist())
        if c['what'] == 'recentre':
            L = c['L']
            if not hasattr(pr, 'recentreObject'):
                X.count('absent')
                return
            for pts in itertools.product(np.arange(-7, 16) * L / 8, repeat=3):
                x = np.array([pts, pts[::-1]])
                a = x.copy()
                X.step()
                got = pr.recentreObject(a, L)
                k = (got - x) / L
                if got.shape != x.shape or not np.allclose(k, np.round(k), atol=1e-9) or np.any(got < 0) or np.any(got >= L) or not np.array_equal(a, x):
                    raise Violation('points %s put back into a box of %s: %s' % (x.tolist(), L, got.tolist()))
        if c['what'] == 'com':
            if not hasattr(pr, 'calcCoM'):
                X.count('absent')
                return
            for n in (1, 2, 3, 60):
                for masses in itertools.product((1., 2., 7.), repeat=min(n, 3)):
                    m = np.resize(masses, n)
                    for k in range(4):
                        x = (np.arange(3. * n).reshape(n, 3) * (k + 1) % 7 + k * 100.)
                        X.step()
                        X.state(('com', n, masses, k))
                        a, b = x.copy(), m.copy()
                        if not close(pr.calcCoM(a, b), (x * m[:, None]).sum(0) / m.sum()):
                            raise Violation('centre of mass of %s with masses %s: %s' % (x.tolist(), m.tolist(), pr.calcCoM(a, b)))
                        if not (np.array_equal(a, x) and np.array_equal(b, m)):
                            raise Violation('calcCoM changed its arguments')
        if c['what'] == 'frac':
            if not hasattr(pr, 'getCatWithinFracR200'):
                X.count('absent')
                return
            L, h = c['L'], c['half']
            for mult in itertools.product(range(1, 4), repeat=2):
              for places in itertools.product((0., .11, .23, .42), repeat=3):
                obj, x = [], []
                for k, n in enumerate(mult):        # object k: n points on either side of its centre, the others at the listed distances
                    ctr = np.array([(.02, .5, .97), (.5, .98, .25)][k])
                    d = [np.zeros(3)] * 2 + [s * np.eye(3)[(j + k) % 3] * r for j, r in enumerate(places[:n]) for s in (-1, 1)]
                    obj.append(list(range(len(x), len(x) + len(d))))
                    x += [ctr + e for e in d]
                x = np.array(x)
                x = x % 1. * 10 if L else x * 10
                perm = np.roll(np.arange(len(x)), 3)
                inv = np.argsort(perm)
                xp = x[perm]
                cat = np.array([inv[i] for o in obj for i in o], dtype=np.int32)
                size = np.array([len(o) for o in obj], dtype=np.int32)
                m = np.ones(len(x))
                for r200, frac in (((1.5, 3.), 1.), ((1.5, 3.), .5), ((5., .3), 1.), ((.3, 5.), 2.)):
                    X.step()
                    X.state(('frac', mult, places, r200, frac))
                    co, so = pr.getCatWithinFracR200(cat.copy(), size.copy(), xp, m, 10. if L else 0., h, np.array(r200), frac)
                    exp, es = [], []
                    for k, n in enumerate(mult):
                        w = [inv[i] for i, r in zip(obj[k], [0, 0] + [r for r in places[:n] for s in (-1, 1)]) if 10 * r <= r200[k] * frac]
                        if w:
                            exp.append(sorted(w))
                            es.append(len(w))
                    off = np.concatenate(([0], np.cumsum(so)))
                    gotp = [sorted(co[off[k]:off[k + 1]]) for k in range(len(so))]
                    if gotp != exp or list(so) != es or off[-1] != len(co):
                        raise Violation('objects of %s, radii %s x %s: particles kept %s, within the radius are %s' % (x.tolist(), r200, frac, gotp, exp))
        if c['what'] == 'subset':
            if hasattr(pr, 'getSubSetIdxCat'):
                for sizes in itertools.product((0, 1, 2, 3), repeat=4):
                    idx = np.array([7 * k % 11 for k in range(sum(sizes))], dtype=np.int32)
                    off = np.concatenate(([0], np.cumsum(sizes)))
                    for n in range(1, 5):
                        for sel in itertools.permutations(range(4), n):
                            X.step()
                            got = pr.getSubSetIdxCat(idx, np.array(sizes, dtype=np.int32), np.array(sel))
                            if list(got) != [i for o in sel for i in idx[off[o]:off[o + 1]]]:
                                raise Violation('particles of objects %s, sizes %s, catalogue %s: %s' % (sel, sizes, idx.tolist(), list(got)))
            if hasattr(ct, 'getBlocks'):
                for n in range(0, 12):
                    for b in range(1, 14):
                        for mk in (list, np.array):
                            X.step()
                            got = [list(e) for e in ct.getBlocks(mk(range(n)), b)]
                            if [i for e in got for i in e] != list(range(n)) or any(len(e) != b for e in got[:-1]) or any(not 0 < len(e) <= b for e in got):
                                raise Violation('blocks of %d of %d elements: %s' % (b, n, got))

    X.each([dict(lo=k, hi=min(k + 45, 1000), sign=s) for s in ('', '-') for k in range(100, 1000, 45)], fmt, group='numbers')
    X.each([dict(model=m) for m in MODELS], models, group='density models')
    X.each([dict()], cosmo, group='cosmology')
    X.each([dict()], axes, group='axes')
    th = X.tier == 'thorough'
    X.each([dict(what='table', shape=s_, n=n) for s_, n in (((2, 2), 5 + 4 * th), ((2, 3), 4), ((3, 2), 4), ((3, 3), 2 + th))]
           + [dict(what='binned')] + [dict(what='curve', grid=g) for g in ((-2, 1, 3), (-1, 1, 4), (-2, 0, 4))]
           + [dict(what='ks'), dict(what='errors')] + [dict(what='mode', n=n) for n in range(1, 7)], stats_, group='statistics')
    X.each([dict(what='pbc', L=L, n=n, axes=ax, dt=dt, shift=sh) for L in (1., 10.) for n in range(1, 5 if X.quick else 6) for ax, dt, sh in (((0, 1, 2), 'f8', 0.), ((2, 0, 1), 'f4', 0.), ((1, 2, 0), 'f8', -L / 4))]
           + [dict(what='recentre', L=L) for L in (1., 10.)] + [dict(what='com')]
           + [dict(what='frac', L=L, half=h) for L in (True, False) for h in ('com', 'mode')] + [dict(what='subset')], geometry, group='geometry')
