"""C22 snapshot front end vs array front end: same data, same answers, for every query."""
import numpy as np
import worlds, gworld, queries as Q
from mc import Violation
from refmodel import close

META = {"assumptions": ["snapshots are written in double precision, overdensity radii are single precision in both front ends"]}
R = (0.3, 0.2, 0.1)
H = {
    'one': [(60, 7, 1, .6, (.8, .6, .4), (.5, .5, .5), 1, R)],
    'edge': [(40, 5, 2, .5, (.5, .4, .3), (.02, .5, .97), 5, None), (130, 9, 3, .9, (.9, .8, .25), (.7, .01, .4), 6, (1., .4, .2))],
    'mix': [(3, 6, 2, .6, (.5, .4, .3), (.5, .99, .5), 8, None), (80, 4, 1, .4, (.5, .4, .3), (.2, .2, .2), 7, R), (9, 0, 0, .5, (.5, .4, .3), (.8, .3, .1), 11, R),
            (33, 2, 1, 1.1, (.9, .5, .5), (.99, .99, .99), 9, (.7, .1, 1.2)), (5, 0, 1, .3, (.3, .2, .2), (.4, .7, .2), 13, R)],
}


def explore(X):
    import cosmic_profiles as cp

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        w = gworld.make(X.scratch, u, H[c['halos']], otype=c['otype'], how=c['how'], rdef=c['rdef'], kind=c['kind'], splits=c['splits'], fof_splits=c['fof'], L=c['L'], massarr=c['massarr'], min_ptcs=c['min'])
        cat = w[0]
        g = gworld.build(cp, w, X.scratch, c['otype'], c['rdef'])
        a = worlds.build(cp, cat, X.scratch, viz='viz2', catd='cat2')
        n = len(cat.objs)
        X.state(tuple(sorted((k, str(v)) for k, v in c.items())))

        def same(what, x, y, rtol=1e-6, atol=0.):
            X.step(2)
            if getattr(x, 'dtype', None) is not None and x.dtype.names:
                if x.dtype != y.dtype:
                    raise Violation("%s: %s from the snapshot, %s from arrays" % (what, x.dtype, y.dtype))
                for f in x.dtype.names:
                    # signs of axes are arbitrary
                    p, q = (np.abs(x[f]), np.abs(y[f])) if f in ('minor', 'inter', 'major') else (x[f], y[f])
                    same("%s[%s]" % (what, f), p, q, rtol, 1e-6 if f in ('minor', 'inter', 'major') else atol)
                return
            if not close(x, y, rtol, atol):
                raise Violation("%s: %s from the snapshot, %s from arrays" % (what, np.asarray(x)[:3], np.asarray(y)[:3]))
            X.ok()
        for k in (0, 1):
            same(('particle indices', 'object sizes')[k], g.getIdxCat()[k], a.getIdxCat()[k], 0)
            same(('positions', 'masses')[k], g.getXYZMasses()[k], a.getXYZMasses()[k], 1e-9)
        same('radii', g.getR200(), a.getR200())
        kz = worlds.katz(np.linspace(.2, 1.5, 5), 1e-2, 100, 5, c['red'], c['shell'])
        r = np.logspace(-1, .2, 6)
        for sel in [list(range(n))] + ([[n - 1, 0]] if n > 1 else []):
            same('masses and centres', g.getMassesCenters(sel), a.getMassesCenters(sel), 1e-6, 1e-9 * c['L'] * u.lout)
            same('local shapes', g.getShapeCatLocal(sel, katz_config=kz), a.getShapeCatLocal(sel, katz_config=kz))
            same('overall shapes', g.getShapeCatGlobal(sel, katz_config=kz), a.getShapeCatGlobal(sel, katz_config=kz))
            ps = g.estDensProfs(r, sel)
            same('spherical densities', ps, a.estDensProfs(r, sel))
            same('kernel densities', g.estDensProfs(r, sel, direct_binning=False), a.estDensProfs(r, sel, direct_binning=False), 1e-5, 1e-25)
            same('ellipsoidal densities', g.estDensProfs(r, sel, spherical=False, katz_config=kz), a.estDensProfs(r, sel, spherical=False, katz_config=kz))
            if c['fit']:
                r2 = np.logspace(-1.5, 0, 10)
                prof = np.array([cp_prof(r2, k) for k in range(len(sel))])
                m = {'profile': 'nfw', 'min_method': c['fit']}
                same('fits', g.fitDensProfs(prof, r2, m, sel), a.fitDensProfs(prof, r2, m, sel), 1e-2)
                same('concentrations', g.estConcentrations(prof, r2, m, sel), a.estConcentrations(prof, r2, m, sel), 1e-2)
        X.outcome(n, tuple(np.round(np.asarray(ps)[0] / (np.asarray(ps)[0].max() + 1e-300), 4)))

    def cp_prof(r, k):
        return 5. / ((r / (.3 + .1 * k)) * (1 + r / (.3 + .1 * k)) ** 2)

    cs = []
    for h in H:
        for ot in ('dm', 'gas', 'stars'):
            for un in ('int', 'a', 'b', 'c', 'd'):
                for rd in ('Rvir', 'R200'):
                    for how in ('com', 'mode'):
                        for sp in (1, 2, 3):
                            for kind in ('hdf5', 'bin'):
                                for mn in (5, 3, 1):
                                    k = len(cs)
                                    cs.append(dict(halos=h, otype=ot, units=un, rdef=rd, how=how, splits=sp, fof=1 + k // 2 % 3, kind=kind, L=(10., 4.07, 10.46)[k // 3 % 3], massarr=k // 5 % 2 == 1, min=mn,
                                                   red=k // 7 % 2 == 1, shell=k // 4 % 2 == 1, fit=('Nelder-Mead', None, None, 'L-BFGS-B', None)[k % 5]))
    if X.quick:
        cs = [c for k, c in enumerate(cs) if k % 5 in (0, 3)]
    X.each(cs, fn)

    # the same numbers in every memory layout, byte order and number type
    def strided(a):
        b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]

    def frozen(a):
        a = a.copy()
        a.flags.writeable = False
        return a
    FORMS = {'column-major': np.asfortranarray, 'strided': strided, 'reversed': lambda a: a[::-1].copy()[::-1], 'big-endian': lambda a: a.astype('>f8'), 'read-only': frozen, 'f4': lambda a: a.astype('f4'), '>f4': lambda a: a.astype('>f4'),
             'f2': lambda a: a.astype('f2'), 'longdouble': lambda a: a.astype(np.longdouble), 'int32': lambda a: a.astype('i4'), 'uint8': lambda a: a.astype('u1'), 'list': lambda a: a.tolist()}
    CATS = {'tuples': tuple, 'int64': np.array, 'int16': lambda i: np.array(i, 'i2'), 'uint16': lambda i: np.array(i, 'u2'), 'uint64': lambda i: np.array(i, 'u8'), 'strided': lambda i: np.array([i, i]).T.copy()[:, 0]}
    SPEC = [(25, .5, (.6, .4, .3), (.5, .5, .5), 4, R), (40, .6, (.5, .45, .3), (.98, .8, .1), 6, R)]
    RAD, RADF = np.array([.25, .5, .75, 1., 1.25]), np.array([.125, .25, .375, .5, .625, .75, .875, 1.])
    PROF = Q.prof(2, RADF)
    PROF = np.maximum(1., np.round(PROF * 250 / PROF.max(axis=1)[:, None]))      # numbers that every type holds
    ASK = {
        'masses': lambda o, f, g: o.getMassesCenters([0, 1]),
        'sph': lambda o, f, g: o.estDensProfs(f(RAD), [0, 1]),
        'kernel': lambda o, f, g: o.estDensProfs(f(RAD), [0, 1], direct_binning=False),
        'ell': lambda o, f, g: o.estDensProfs(f(RAD), [0, 1], spherical=False, katz_config=worlds.katz(f(RAD), 1e-2, 60, 5)),
        'local': lambda o, f, g: o.getShapeCatLocal([0, 1], katz_config=worlds.katz(f(RAD), 1e-2, 60, 5)),
        'global': lambda o, f, g: o.getShapeCatGlobal([0, 1], katz_config=worlds.katz(f(RAD), 1e-2, 60, 5)),
        'fit': lambda o, f, g: o.fitDensProfs(g(PROF), f(RADF), Q.NFW, [0, 1]),
        'conc': lambda o, f, g: o.estConcentrations(g(PROF), f(RADF), Q.EIN, [0, 1]),
    }

    def forms(c):
        u = worlds.set_units(cp, c['units'])
        w = worlds.make(u, SPEC, how=c['how'], min_ptcs=5)
        form = FORMS.get(c['form'])
        arrs = {'xyz': w.xyz_in, 'masses': w.m_in, 'r200': w.r200_in}
        if c['arg'] in arrs:
            a = np.round(arrs[c['arg']] * 16 / np.abs(arrs[c['arg']]).max(), 3 if 'int' not in c['form'] else 0)       # numbers that every type holds
            if c['form'] in ('f4', '>f4', 'f2'):
                a = a.astype('f2').astype('f8')
            if c['arg'] == 'xyz':
                w.L_in = 16.
            arrs[c['arg']] = a
        cat = [list(i) for i in w.idx_in]

        def obj(conv, catconv):
            v = {k: conv(a) if k == c['arg'] else a for k, a in arrs.items()}
            before = {k: np.array(a) for k, a in v.items()}
            ci = [catconv(i) for i in cat]
            o = cp.DensShapeProfs(v['xyz'], v['masses'], ci, v['r200'], w.L_in, '001', X.scratch + '/v', X.scratch + '/c', MIN_NUMBER_PTCS=5, CENTER=c['how'])
            return o, v, before, ci
        same = lambda a: a
        o1 = obj(same, list)[0]
        o2, v, before, ci = obj(form if c['arg'] in arrs else same, CATS[c['form']] if c['arg'] == 'idx_cat' else list)
        f = form if c['arg'] == 'radii' else same
        g = form if c['arg'] == 'profiles' else same
        for name in (('fit', 'conc') if c['arg'] == 'profiles' else [k for k in ASK if k != 'masses'] if c['arg'] == 'radii' else ASK):
            X.step()
            exp = ASK[name](o1, same, same)
            try:
                got = ASK[name](o2, f, g)
            except Exception as e:
                raise Violation("%s with %s given as %s: %s: %s" % (name, c['arg'], c['form'], type(e).__name__, e))
            if not Q.close_rows(got, exp, 2e-3 if name in ('fit', 'conc') else 1e-6):
                raise Violation("%s with %s given as %s: %s, as contiguous doubles %s" % (name, c['arg'], c['form'], got, exp))
            X.ok()
            X.state(c['arg'], c['form'], name)
        for k in v:
            if not np.array_equal(np.array(v[k]), before[k]):
                raise Violation("%s given as %s was changed" % (k, c['form']))
        X.outcome(c['arg'], c['form'])
    cs = [dict(arg=a, form=f, how=h, units=un) for a in ('xyz', 'masses', 'r200', 'radii', 'profiles', 'idx_cat') for f in (CATS if a == 'idx_cat' else FORMS) for h in ('com', 'mode') for un in ('int', 'a', 'b', 'c')
          if (f != 'list' or a in ('r200', 'radii', 'profiles')) and (a != 'radii' or 'int' not in f) and (f != 'read-only' or a in ('xyz', 'masses', 'r200')) and (not X.quick or (h, un) in (('com', 'a'), ('mode', 'int')))]
    X.bounds['array forms'] = len(FORMS)
    X.each(cs, forms, group='forms')
