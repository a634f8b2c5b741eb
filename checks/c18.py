"""C18 fits: every combination of model, fixed parameters, minimiser, units and object order; every pattern of unusable bins; every set of request fields."""
import itertools, os
import numpy as np
import pool, worlds
from c18_easy import EASY
from mc import Violation

META = {"assumptions": ["profiles are drawn from the model without noise; recovery is required where the start values lead the minimiser there (lib/c18_easy.py)",
                        "worker processes are replaced by an in-process pool whose order of work is enumerated; some cases run the real pool"]}
PARS = {'nfw': ('rho_s', 'r_s'), 'hernquist': ('rho_s', 'r_s'), 'einasto': ('rho_s', 'alpha', 'r_s'), 'alpha_beta_gamma': ('rho_s', 'alpha', 'beta', 'gamma', 'r_s')}
MIN = ('Nelder-Mead', 'L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'trust-constr')
SPEC = [(8, .9, (.8, .6, .4), (.3, .6, .5), 1, None), (6, .35, (.9, .5, .45), (.9, .1, .4), 2, None), (7, 1.4, (.5, .4, .3), (.7, .8, .9), 3, None)]
# generating parameters, one per object; r_s in units of the object's radius
SETS = {'nfw': [(dict(rho_s=5., r_s=.2), dict(rho_s=40., r_s=.12), dict(rho_s=.3, r_s=.35))],
        'hernquist': [(dict(rho_s=5., r_s=.3), dict(rho_s=40., r_s=.2), dict(rho_s=.3, r_s=.5))],
        'einasto': [(dict(rho_s=5., alpha=.18, r_s=.2), dict(rho_s=40., alpha=.25, r_s=.3), dict(rho_s=.3, alpha=.4, r_s=.35))],
        'alpha_beta_gamma': [(dict(rho_s=5., alpha=1., beta=3., gamma=1., r_s=.2), dict(rho_s=40., alpha=1.5, beta=3.5, gamma=.7, r_s=.3), dict(rho_s=.3, alpha=1.2, beta=2.6, gamma=1.1, r_s=.25))]}


def model(prof, p, r):
    if prof == 'einasto':
        return p['rho_s'] * np.exp(-2 / p['alpha'] * ((r / p['r_s']) ** p['alpha'] - 1))
    al, be, ga = {'nfw': (1., 3., 1.), 'hernquist': (1., 4., 1.)}.get(prof) or (p['alpha'], p['beta'], p['gamma'])
    x = r / p['r_s']
    return p['rho_s'] * x ** -ga * (1 + x ** al) ** ((ga - be) / al)


def explore(X):
    import cosmic_profiles as cp
    import cosmic_profiles.dens_profs.dens_profs_tools as dt
    os.chdir(X.scratch)
    R = np.logspace(-1.5, 0, 14)
    real = getattr(dt, 'Pool', None)
    order = ['fwd']
    Stand = pool.make(order)
    objs = {}

    def obj(un):
        u = worlds.set_units(cp, un)
        if un not in objs:
            c = worlds.make(u, SPEC)
            objs[un] = worlds.build(cp, c, X.scratch), np.array([s[1] for s in SPEC]) * u.lout
        return objs[un]

    def fit(o, dens, r, m, sel, conc=False, realpool=False):
        X.step()
        keep = dens.copy(), r.copy(), dict(m), list(sel)
        if real is not None:
            dt.Pool = real if realpool else Stand
        try:
            res = (o.estConcentrations if conc else o.fitDensProfs)(dens, r, m, sel)
        finally:
            if real is not None:
                dt.Pool = real
        if not (np.array_equal(keep[0], dens, equal_nan=True) and np.array_equal(keep[1], r) and keep[2] == m and keep[3] == list(sel)):
            raise Violation("the caller's arguments were changed by the fit %s" % m)
        return res

    def eq(a, b, rtol=0.):
        return all(np.all((np.isnan(a[f]) & np.isnan(b[f])) | (np.abs(a[f] - b[f]) <= rtol * np.abs(b[f]))) for f in a.dtype.names if f != 'is_conv') and np.array_equal(a['is_conv'], b['is_conv'])

    def easy(prof, fixed, mm):
        """the tolerance to which the fit must reproduce the profile, None where the documented start does not lead the minimiser there"""
        free = len(PARS[prof]) - len(fixed)
        if free == 0:
            return 1e-8
        return EASY.get((prof, tuple(fixed), mm))

    def recover(c):
        prof, fixed, mm, un = c['prof'], tuple(c['fixed']), c['min'], c['un']
        o, r200 = obj(un)
        pars = [dict(p, r_s=p['r_s'] * R2, rho_s=p['rho_s'] * c['scale']) for p, R2 in zip(c['pars'], r200)]
        dens = np.array([model(prof, p, R * R2) for p, R2 in zip(pars, r200)])
        same = {}
        for k in range(3):
            m = dict({'profile': prof}, **{f: pars[k][f] for f in fixed})
            if mm:
                m['min_method'] = mm
            why = "model %s, true %s, fixed %s, minimiser %s, units %s" % (prof, pars[k], fixed, mm, un)
            order[0] = 'fwd'
            b = fit(o, dens[k:k + 1], R, m, [k])
            if b.dtype.names != PARS[prof] + ('is_conv',) or b.shape != (1,):
                raise Violation("%s: layout %s" % (why, b.dtype))
            for f in fixed:
                if not abs(b[f][0] / pars[k][f] - 1) < 1e-9:
                    raise Violation("%s: fixed %s came back as %r" % (why, f, b[f][0]))
            if not b['is_conv'][0] and c['tol'] is not None:
                raise Violation("%s: reported as not converged" % why)
            d = {f: float(b[f][0]) for f in PARS[prof]}
            with np.errstate(all='ignore'):
                e = float(np.max(np.abs(np.log(model(prof, d, R * r200[k]) / dens[k]))))
            X.outcome(prof, fixed, mm, un, k, round(-np.log10(e + 1e-12)) if np.isfinite(e) else None)
            if (c['tol'] is not None) and not e < c['tol']:
                raise Violation("%s: fit %s, off by %g in log density" % (why, d, e))
            if c['tol'] is None:
                X.skipped += 1
            if c['tol'] is not None and len(fixed) + 2 >= len(PARS[prof]) and prof != 'alpha_beta_gamma':
                for f in PARS[prof]:
                    if not abs(d[f] / pars[k][f] - 1) < 20 * c['tol']:
                        raise Violation("%s: fitted %s = %r" % (why, f, d[f]))
            cc = fit(o, dens[k:k + 1], R, m, [k], True)
            if np.shape(cc) != (1,) or not abs(cc[0] * d['r_s'] / r200[k] - 1) < 1e-9 and c['tol'] is not None:
                raise Violation("%s: concentration %s, radius over fitted scale radius %r" % (why, cc, r200[k] / d['r_s']))
            X.ok(2)
            # independence: this object among the others, in every order, with every order of work
            for sel in c['sels']:
                if k not in sel:
                    continue
                for w in c['orders'] if len(sel) > 1 else ('fwd',):
                    order[0] = tuple(w) if isinstance(w, list) else w
                    g = fit(o, dens[list(sel)], R, m, list(sel))
                    j = sel.index(k)
                    if g.shape != (len(sel),) or not eq(g[j:j + 1], b):
                        raise Violation("%s: row %d of selection %s (work order %s) is %s, alone %s" % (why, j, sel, w, g[j], b[0]))
                    gc = fit(o, dens[list(sel)], R, m, list(sel), True)
                    if np.shape(gc) != (len(sel),) or gc[j] != cc[0]:
                        raise Violation("%s: concentration %d of selection %s (work order %s) is %s, alone %s" % (why, j, sel, w, gc[j], cc[0]))
                    X.ok(2)
                    if c['real']:
                        g = fit(o, dens[list(sel)], R, m, list(sel), realpool=True)
                        if not eq(g[j:j + 1], b, 1e-12):
                            raise Violation("%s: row %d of selection %s with the real worker pool is %s, alone %s" % (why, j, sel, g[j], b[0]))
                        X.ok()
            X.state(prof, fixed, mm, un, k)

    def holes(c):
        """unusable bins"""
        prof, mm, un = c['prof'], c['min'], c['un']
        o, r200 = obj(un)
        n = c['n']
        r = np.logspace(-1.3, 0, n)
        pars = [dict(p, r_s=p['r_s'] * R2) for p, R2 in zip(SETS[prof][0], r200)]
        fx = {f: pars[1][f] for f in c['fixed']}
        m = dict(fx, profile=prof, min_method=mm)
        full = np.array([model(prof, p, r * R2) for p, R2 in zip(pars, r200)])
        order[0] = 'fwd'
        good = fit(o, full, r, m, [0, 1, 2])
        for pat in itertools.product(c['alpha'], repeat=n - len(c['head'])):
            pat = tuple(c['head']) + pat
            d = full.copy()
            for j, v in enumerate(pat):
                if v is not None:
                    d[1, j] = float(v)
            use = [j for j, v in enumerate(pat) if v is None]
            why = "%s, %s, fixed %s, units %s, bins %s" % (prof, mm, c['fixed'], un, pat)
            g = fit(o, d, r, m, [0, 1, 2])
            gc = fit(o, d, r, m, [0, 1, 2], True)
            for k in (0, 2):
                if not eq(g[k:k + 1], good[k:k + 1]):
                    raise Violation("%s: unusable bins of one object changed the fit of another: %s, was %s" % (why, g[k], good[k]))
            if not use:
                if g['is_conv'][1] or not all(np.isnan(g[f][1]) for f in PARS[prof]):
                    raise Violation("%s: a profile without usable bins gives %s" % (why, g[1]))
                if not np.isnan(gc[1]):
                    raise Violation("%s: a profile without usable bins has the concentration %s" % (why, gc[1]))
            else:
                a = fit(o, full[1:2][:, use], r[use], m, [1])
                if not eq(g[1:2], a, 1e-9):
                    raise Violation("%s: fit %s, with the usable bins only %s" % (why, g[1], a[0]))
                if len(use) > len(PARS[prof]) and len(PARS[prof]) == 2 and (prof, tuple(c['fixed']), mm) in EASY and mm != 'Powell' and not (g['is_conv'][1] and abs(g['r_s'][1] / pars[1]['r_s'] - 1) < .02):
                    raise Violation("%s: fit %s, true %s" % (why, g[1], pars[1]))
                if not (np.isnan(gc[1]) and np.isnan(g['r_s'][1])) and not abs(gc[1] * g['r_s'][1] / r200[1] - 1) < 1e-9:
                    raise Violation("%s: concentration %s, radius over fitted scale radius %s" % (why, gc[1], r200[1] / g['r_s'][1]))
            X.ok(4)
            X.state(prof, mm, pat)
            X.outcome(prof, mm, len(use), bool(g['is_conv'][1]))

    def reject(c):
        un = 'a'
        o, r200 = obj(un)
        r = np.logspace(-1.2, 0, 6)
        dens = np.array([model('nfw', dict(rho_s=4., r_s=.2 * q), r * q) for q in r200])
        vals = {'rho_s': 4., 'r_s': .25 * r200[0], 'alpha': 1., 'beta': 3., 'gamma': 1., 'foo': 2.}
        for n in range(len(vals) + 1):
            for fs in itertools.combinations(vals, n):
                m = {f: vals[f] for f in fs}
                if c['prof'] is not None:
                    m['profile'] = c['prof']
                if c['min'] is not None:
                    m['min_method'] = c['min']
                good = c['prof'] in PARS and set(fs) <= set(PARS[c['prof']]) and (c['min'] is None or c['min'] in MIN)
                if good and not c['run']:
                    continue
                for call in (lambda: fit(o, dens, r, m, [0, 1, 2]), lambda: fit(o, dens, r, m, [0, 1, 2], True), lambda: o.plotDensProfs(dens, r, dens, r, m, 2, [0, 1, 2])):
                    if good and call.__code__.co_names[:1] == ('plotDensProfs',):
                        continue
                    X.step()
                    try:
                        g = call()
                    except Exception as e:
                        if good:
                            raise Violation("fit request %s rejected: %s %s" % (m, type(e).__name__, e))
                        if not isinstance(e, (AssertionError, ValueError, TypeError, KeyError)):
                            raise
                        g = None
                    else:
                        if not good:
                            raise Violation("invalid fit request %s accepted" % m)
                        if isinstance(g, np.ndarray) and g.dtype.names:
                            for f in fs:
                                if not np.allclose(g[f], vals[f], rtol=1e-9):
                                    raise Violation("fit request %s: %s = %s" % (m, f, g[f]))
                    X.ok()
                X.state(c['prof'], c['min'], fs)
                X.outcome(good, c['prof'], n)
        for k in (0, 1, 2, 4):
            for conc in (False, True):
                try:
                    fit(o, np.concatenate([dens, dens])[:k], r, {'profile': 'nfw'}, [0, 1, 2], conc)
                except ValueError:
                    X.ok()
                else:
                    raise Violation("%d profiles accepted for 3 objects" % k)

    cs = []
    perms = [list(p) for n in (2, 3) for p in itertools.permutations(range(3), n)]
    k = 0
    for prof in PARS:
        for n in range(len(PARS[prof]) + 1):
            for fixed in itertools.combinations(PARS[prof], n):
                for mm in MIN + (None,):
                    tol = easy(prof, fixed, mm or 'Powell')
                    for un in (('int', 'a', 'b', 'c', 'd') if not X.quick else (('a', 'b', 'int', 'c', 'd')[k % 5],)):
                        k += 1
                        if X.quick and mm == 'trust-constr' and k % 6 and len(fixed) < len(PARS[prof]) - 1:
                            continue
                        sels = perms if not X.quick else [perms[k % 12 % len(perms)], perms[(k + 5) % len(perms)]]
                        if mm == 'trust-constr':
                            sels = sels[:1]
                        cs.append(dict(prof=prof, fixed=list(fixed), min=mm, un=un, pars=SETS[prof][0], scale=(1., 1e9, 3e-7)[k % 3], tol=tol, sels=sels,
                                       orders=['fwd', 'rev', [1]] if not X.quick else [('rev', 'fwd', [1])[k % 3]], real=k % 40 == 0))
    X.each(cs, recover, group='models')
    cs = []
    for prof, fixed, n in (('nfw', (), 6), ('hernquist', ('r_s',), 6), ('nfw', ('rho_s',), 5), ('einasto', ('alpha',), 6), ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 5)):
        for mm in ('Nelder-Mead', 'L-BFGS-B', 'Powell') if not X.quick else ('Nelder-Mead',):
            al = [None, 0., 'nan'] if n == 5 or not X.quick else [None, 'nan']
            if not X.quick:
                al = al + [-1., '-inf']
            for h in itertools.product(al, repeat=2):
                cs.append(dict(prof=prof, fixed=list(fixed), n=n, min=mm, un='a' if n == 5 else 'b', alpha=al, head=list(h)))
    for mm in MIN:
        cs.append(dict(prof='nfw', fixed=[], n=4, min=mm, un='c', alpha=[None, 0.] if X.quick else [None, 0., 'nan'], head=[0.] if X.quick else []))
        cs.append(dict(prof='einasto', fixed=['rho_s'], n=3, min=mm, un='c', alpha=['nan', 0.], head=[]))
    X.each(cs, holes, group='unusable bins')
    cs = [dict(prof=p, min=mm, run=mm in ('Nelder-Mead', None)) for p in tuple(PARS) + ('isothermal', '', None) for mm in MIN + (None, 'BFGS', '')]
    X.each(cs, reject, group='requests')

    # many objects, each with a scale of its own, and finer profiles
    def many(c):
        u = worlds.set_units(cp, c['un'])
        N = c['n']
        cat = worlds.make(u, [(5, .3 + .011 * ((7 * k) % N), (.2, .15, .1), (.5, .5, .5), k, None) for k in range(N)])
        o = worlds.build(cp, cat, X.scratch)
        r200 = cat.r200 * u.lout
        r = np.logspace(-1.5, 0, c['bins'])
        rs, rho = np.array([.1 + .4 * ((11 * k + 3) % N) / N for k in range(N)]) * r200, np.array([10. ** (((5 * k) % N) / N * 2) for k in range(N)])
        dens = np.array([model(c['prof'], dict(rho_s=rho[k], r_s=rs[k]), r * r200[k]) for k in range(N)])
        sel = [(c['step'] * k + 1) % N for k in range(N)][:c['take']]
        order[0] = c['order']
        m = {'profile': c['prof'], 'min_method': c['min']}
        b, cc = fit(o, dens[sel], r, m, sel), fit(o, dens[sel], r, m, sel, True)
        if b.shape != (len(sel),) or np.shape(cc) != (len(sel),):
            raise Violation("%d objects: %s fits, %s concentrations" % (len(sel), b.shape, np.shape(cc)))
        for i, k in enumerate(sel):
            if not (b['is_conv'][i] and abs(b['r_s'][i] / rs[k] - 1) < 1e-2 and abs(b['rho_s'][i] / rho[k] - 1) < 2e-2 and abs(cc[i] * rs[k] / r200[k] - 1) < 1e-2):
                raise Violation("row %d of %d objects (%s): fit %s, concentration %r; drawn from r_s=%r rho_s=%r, radius %r" % (i, len(sel), m, b[i], cc[i], rs[k], rho[k], r200[k]))
            X.ok()
        X.state('many', c['prof'], c['n'], c['bins'])
    X.each([dict(prof=p, min=mm, n=n, bins=nb, step=st, take=tk, un=un, order=od) for p, mm in (('nfw', 'Nelder-Mead'), ('hernquist', 'Nelder-Mead'))
            for n, nb, st, tk, un, od in ((40, 25, 7, 40, 'int', 'fwd'), (70, 8, 3, 70, 'b', 'rev'), (300, 12, 7, 150, 'd', 'fwd'), (12, 130, 5, 11, 'a', 'rev'))], many, group='many objects')
    X.bounds.update(models=4, minimisers=6, objects=3, bins=6)
