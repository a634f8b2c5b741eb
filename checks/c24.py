"""C24 settings: every combination of valid and invalid fields of the configuration arguments, for every query that takes them; equivalent spellings; nothing the caller owns changes."""
import itertools, os, shutil
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from mc import Violation

META = {"assumptions": ["a setting is rejected by raising an exception, whichever", "settings outside the documented fields and types are the invalid ones; numerical plausibility (e.g. a negative tolerance) is not"]}
R = (.3, .2, .1)
HAL = [(24, 2, 1, .5, (.6, .4, .3), (.5, .5, .5), 4, R), (31, 3, 2, .6, (.5, .45, .3), (.2, .8, .1), 6, R), (18, 0, 1, .4, (.4, .3, .3), (.99, .1, .3), 7, R)]
R6 = np.logspace(-.9, .1, 6)
KATZ = {
    'ell': lambda o, s, k: o.estDensProfs(R6, s, spherical=False, katz_config=k),
    'local': lambda o, s, k: o.getShapeCatLocal(s, katz_config=k),
    'global': lambda o, s, k: o.getShapeCatGlobal(s, katz_config=k),
    'vlocal': lambda o, s, k: o.getShapeCatVelLocal(s, katz_config=k),
    'vglobal': lambda o, s, k: o.getShapeCatVelGlobal(s, katz_config=k),
    'dumpLocal': lambda o, s, k: o.dumpShapeCatLocal(s, katz_config=k),
    'dumpGlobal': lambda o, s, k: o.dumpShapeCatGlobal(s, katz_config=k),
    'dumpVLocal': lambda o, s, k: o.dumpShapeVelCatLocal(s, katz_config=k),
    'dumpVGlobal': lambda o, s, k: o.dumpShapeVelCatGlobal(s, katz_config=k),
    'plotLocalT': lambda o, s, k: o.plotLocalTHist(4, .5, s, katz_config=k),
    'plotGlobalT': lambda o, s, k: o.plotGlobalTHist(4, s, katz_config=k),
    'plotShapeProfs': lambda o, s, k: o.plotShapeProfs(2, s, katz_config=k),
    'vizLocal': lambda o, s, k: o.vizLocalShapes(s, katz_config=k),
    'vizGlobal': lambda o, s, k: o.vizGlobalShapes(s, katz_config=k),
}
READ = ('ell', 'local', 'global', 'vlocal', 'vglobal')
FIT = {
    'fit': lambda o, s, dp, r, m: o.fitDensProfs(dp, r, m, s),
    'conc': lambda o, s, dp, r, m: o.estConcentrations(dp, r, m, s),
    'plotDens': lambda o, s, dp, r, m: o.plotDensProfs(dp, r, dp, r, m, 2, s),
}
PARS = {'nfw': ('rho_s', 'r_s'), 'hernquist': ('rho_s', 'r_s'), 'einasto': ('rho_s', 'alpha', 'r_s'), 'alpha_beta_gamma': ('rho_s', 'alpha', 'beta', 'gamma', 'r_s')}
MINS = ('Nelder-Mead', 'L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'trust-constr')


def listing(root):
    return sorted(os.path.join(d, f) for d, ds, fs in os.walk(root) for f in ds + fs)


def frozen(v):
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    return (v.dtype.str, v.shape, v.tobytes()) if isinstance(v, np.ndarray) else repr(v)


def explore(X):
    import cosmic_profiles as cp
    world = gworld.make(X.scratch, worlds.set_units(cp, 'a'), HAL)

    def fresh():
        u = worlds.set_units(cp, 'a')
        root = os.path.join(X.scratch, 'out')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        return u, root, gworld.build(cp, world, root)

    def attempt(f):
        X.step()
        try:
            return None, f()
        except Exception as e:
            return e, None

    def katz(c):
        u, root, o = fresh()
        q = KATZ[c['query']]
        OK = {'ROverR200': [np.array([.5, .75, 1.25]), [.5, .75, 1.25], (.5, .75, 1.25), np.array([1.25, 9, .75, 9, .5, 9])[::-2], np.array([.5, .75, 1.25], np.float32)],
              'IT_TOL': [.0625, np.float32(.0625), np.float64(.0625)], 'IT_WALL': [60, np.int64(60), np.int32(60)], 'IT_MIN': [5, np.int64(5)], 'REDUCED': [False], 'SHELL_BASED': [False]}
        OK['ROverR200'][3] = np.array([.5, 9, .75, 9, 1.25, 9])[::2]
        BAD = {'ROverR200': [.5, 1], 'REDUCED': [0, 1, 'no', None, 2.], 'SHELL_BASED': [0, 1, 'yes', None]}
        base = {k: v[0] for k, v in OK.items()}
        base.update(c['flags'])
        before = listing(root)
        # every set of missing fields and of invalid fields up to two at a time
        wrong = [({k}, {}) for k in base] + [(set(p), {}) for p in itertools.combinations(base, 2)]
        wrong += [(set(), {k: v}) for k, vs in BAD.items() for v in vs]
        wrong += [(set(), {a: v, b: w}) for a, b in itertools.combinations(BAD, 2) for v in BAD[a] for w in BAD[b]]
        wrong += [({k}, {b: BAD[b][0]}) for k in base for b in BAD if b != k]
        for miss, bad in wrong:
            k = {**{f: v for f, v in base.items() if f not in miss}, **bad}
            was = frozen(k)
            err, res = attempt(lambda: q(o, [2, 0], k))
            if err is None:
                raise Violation("%s accepts the shape settings %s" % (c['query'], k))
            if listing(root) != before:
                raise Violation("%s rejects the shape settings %s, yet leaves %s" % (c['query'], k, set(listing(root)) - set(before)))
            if frozen(k) != was:
                raise Violation("%s changes the shape settings %s" % (c['query'], k))
            X.ok()
            X.state('katz', c['query'], tuple(sorted(miss)), repr(bad), repr(c['flags']))
        # equal settings, however written, give equal answers
        variants = [dict(base)] + [{**base, k: v} for k in OK for v in OK[k][1:]] + [dict(reversed(list(base.items())))]
        if c['query'] in READ:
            ref = None
            for k in variants:
                was, dflt = frozen(k), frozen(cp.default_katz_config)
                err, res = attempt(lambda: q(o, [2, 0], k))
                if err is not None:
                    raise Violation("%s rejects the shape settings %s: %s: %s" % (c['query'], k, type(err).__name__, err))
                ref = res if ref is None else ref
                if not Q.same(np.asarray(res), np.asarray(ref)):
                    raise Violation("%s with %s gives %s, with %s %s" % (c['query'], k, res, base, ref))
                if frozen(k) != was or frozen(cp.default_katz_config) != dflt:
                    raise Violation("%s changes the shape settings %s" % (c['query'], k))
                X.ok()
        else:
            err, _ = attempt(lambda: q(o, [2, 0], dict(base)))
            if err is not None:
                raise Violation("%s rejects the shape settings %s: %s: %s" % (c['query'], base, type(err).__name__, err))
        X.outcome('katz', c['query'], repr(c['flags']))

    def defaults(c):
        """leaving the settings out is the same as passing the published defaults"""
        u, root, o = fresh()
        for n in READ:
            f = {'ell': lambda **k: o.estDensProfs(R6, [1, 0], spherical=False, **k), 'local': lambda **k: o.getShapeCatLocal([1, 0], **k), 'global': lambda **k: o.getShapeCatGlobal([1, 0], **k),
                 'vlocal': lambda **k: o.getShapeCatVelLocal([1, 0], **k), 'vglobal': lambda **k: o.getShapeCatVelGlobal([1, 0], **k)}[n]
            a, b = f(), f(katz_config=dict(cp.default_katz_config))
            e = f(katz_config={'ROverR200': np.logspace(-1.5, 0, 70), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 10, 'REDUCED': False, 'SHELL_BASED': False})
            X.step(3)
            if not Q.same(np.asarray(a), np.asarray(b)) or not Q.same(np.asarray(a), np.asarray(e)):
                raise Violation("%s without settings gives %s, with the default settings %s" % (n, a, b))
            X.ok(); X.state('default', n)

    def fits(c):
        u, root, o = fresh()
        q = FIT[c['query']]
        sel, dp = [2, 0], Q.prof(2) * u.dout
        val = {'rho_s': 3. * u.dout, 'alpha': .5, 'beta': 3., 'gamma': 1., 'r_s': .2 * u.lout}
        before = listing(root)
        names = ('rho_s', 'alpha', 'beta', 'gamma', 'r_s', 'foo')
        for prof in (*PARS, 'Einasto', 'powerlaw', '', None, 'missing'):
            for n in range(len(names) + 1):
                for sub in itertools.combinations(names, n):
                    for mm in (None, 'L-BFGS-B', 'Newton', ''):
                        m = {k: val.get(k, 1.) for k in sub}
                        if prof != 'missing':
                            m['profile'] = prof
                        if mm is not None:
                            m['min_method'] = mm
                        good = prof in PARS and set(sub) <= set(PARS[prof]) and mm in (None, *MINS)
                        if good and (c['query'] == 'plotDens' or mm is None or prof == 'alpha_beta_gamma'):
                            continue
                        was = frozen(m)
                        err, res = attempt(lambda: q(o, sel, dp, Q.RF, m))
                        if good != (err is None):
                            raise Violation("%s %s the model %s%s" % (c['query'], 'rejects' if good else 'accepts', m, ': %s: %s' % (type(err).__name__, err) if err else ''))
                        if not good and listing(root) != before:
                            raise Violation("%s rejects the model %s, yet leaves files" % (c['query'], m))
                        if frozen(m) != was:
                            raise Violation("%s changes the model %s to %s" % (c['query'], was, m))
                        X.ok()
                        X.state('model', c['query'], prof, sub, mm)
        for m in (None, [], 'nfw', ['profile'], ('nfw',)):
            err, _ = attempt(lambda: q(o, sel, dp, Q.RF, m))
            if err is None:
                raise Violation("%s accepts the model %r" % (c['query'], m))
            X.ok()
        # one profile per selected object
        for k in range(5):
            for s in ([0], [1], [2, 0], [1, 2, 0]):
                d = Q.prof(k) * u.dout if k else np.zeros((0, len(Q.RF)))
                if k == len(s) and c['query'] == 'plotDens':
                    continue
                err, _ = attempt(lambda: q(o, s, d, Q.RF, {'profile': 'nfw', 'min_method': 'L-BFGS-B'}))
                if (k == len(s)) != (err is None):
                    raise Violation("%s %s %d profiles for the objects %s%s" % (c['query'], 'accepts' if err is None else 'rejects', k, s, '' if err is None else ': %s' % err))
                if err is not None and listing(root) != before:
                    raise Violation("%s rejects %d profiles for %s, yet leaves files" % (c['query'], k, s))
                X.ok(); X.state('rows', c['query'], k, tuple(s))
        X.outcome('fits', c['query'])

    def radii(c):
        u, root, o = fresh()
        full = [.25, .5, .75, 1., 1.25, 1.5]
        for n in range(7):
            r = full[:n]
            for how, v in (('list', r), ('tuple', tuple(r)), ('array', np.array(r)), ('single', np.array(r, np.float32)), ('strided', np.repeat(np.array(r), 2)[::2])):
                err, res = attempt(lambda: o.estDensProfs(v, [1, 0, 2], **c['kw']))
                # three bins are the least for binned densities
                if c['least'] and n < c['least']:
                    if err is None:
                        raise Violation("estDensProfs(%s) accepts %d radii" % (c['kw'], n))
                elif n == 0:
                    continue
                elif err is not None:
                    raise Violation("estDensProfs(%s) rejects the %d radii %r: %s: %s" % (c['kw'], n, v, type(err).__name__, err))
                else:
                    if how == 'list':
                        ref = np.asarray(res)
                    if ref.shape != (3, n) or not Q.same(np.asarray(res), ref):
                        raise Violation("estDensProfs(%s) with radii %r gives %s, as a list %s" % (c['kw'], v, res, ref))
                X.ok(); X.state('radii', repr(c['kw']), n, how)

    def construct(c):
        """array front end: accepted if and only if positions and masses match and the catalogue is a list"""
        u = worlds.set_units(cp, 'a')
        root = os.path.join(X.scratch, 'con')
        g = np.random.default_rng(3)
        for n, k in itertools.product((1, 8, 9), repeat=2):
            err, _ = attempt(lambda: cp.DensShapeProfs(g.uniform(0, 10, size=(n, 3)), np.ones(k), [[0]], np.array([1.]), 10., '1', root, root, MIN_NUMBER_PTCS=1))
            if (n == k) != (err is None):
                raise Violation("%d positions with %d masses: %s" % (n, k, err or 'accepted'))
            X.ok(); X.state('sizes', n, k)
        x = g.uniform(4, 6, size=(12, 3))
        for cat in (np.array([[0, 1, 2, 3, 4]]), ([0, 1, 2, 3, 4],), np.array([0, 1, 2, 3, 4]), 'abc', None, 5):
            err, _ = attempt(lambda: cp.DensShapeProfs(x, np.ones(12), cat, np.array([1.]), 10., '1', root, root, MIN_NUMBER_PTCS=1))
            if err is None:
                raise Violation("the object catalogue %r is accepted" % (cat,))
            X.ok(); X.state('cat', repr(cat))
        # one object: a plain list and a scalar radius will do
        ref = None
        for cat, r in itertools.product(([[0, 2, 4, 6]], [0, 2, 4, 6], [np.array([0, 2, 4, 6])], [(0, 2, 4, 6)]), (np.array([1.5]), 1.5)):
            err, o = attempt(lambda: cp.DensShapeProfs(x, np.ones(12), cat, r, 10., '1', root, root, MIN_NUMBER_PTCS=1))
            if err is not None:
                raise Violation("catalogue %r with radius %r: %s: %s" % (cat, r, type(err).__name__, err))
            now = [o.getMassesCenters([0]), o.getR200(), o.getIdxCat()[0], o.getIdxCat()[1], o.estDensProfs(R6, [0])]
            ref = ref or now
            if not all(Q.same(np.asarray(a), np.asarray(b)) for a, b in zip(now, ref)):
                raise Violation("catalogue %r with radius %r gives %s, expected %s" % (cat, r, now, ref))
            X.ok(); X.state('one', repr(cat), repr(r))

    flags = [dict(REDUCED=a, SHELL_BASED=b) for a in (False, True) for b in (False, True)]
    X.each([dict(query=q, flags=f) for q in KATZ for f in (flags if q in READ else flags[:1])], katz, group='shape settings')
    X.each([dict()], defaults, group='defaults')
    X.each([dict(query=q) for q in FIT], fits, group='fit models')
    X.each([dict(kw=dict(), least=0), dict(kw=dict(direct_binning=False), least=0), dict(kw=dict(spherical=False, katz_config=Q.KZ), least=3)], radii, group='radii')
    X.each([dict()], construct, group='construction')
    X.bounds.update(katz_fields_wrong=2, models="4 profiles and 5 invalid ones x all subsets of 6 fields x 4 minimisers", radii=6)
