"""C19 mock halos and geometry helpers: every generator configuration of the bound, against analytic shell masses and exact geometry; all orders in which the workers may draw the shells."""
import itertools, math
import numpy as np
import pool
from mc import Violation

META = {"assumptions": ["the documented coarsening of the radial grid (every second shell, the outermost kept) is used when the first proper shell would be empty",
                        "worker processes are replaced by an in-process pool whose order of work is enumerated; some cases run the real pool"]}
MODELS = [('nfw', dict(r_s=.3)), ('nfw', dict(r_s=.02)), ('hernquist', dict(r_s=.4)), ('einasto', dict(alpha=.2, r_s=.25)), ('einasto', dict(alpha=.6, r_s=.1)),
          ('alpha_beta_gamma', dict(alpha=1., beta=3., gamma=.5, r_s=.2)), ('alpha_beta_gamma', dict(alpha=2., beta=4., gamma=1.2, r_s=.35))]


def shape(profile, p):
    """logarithm-free density shape, rho_s = 1"""
    rs = p['r_s']
    if profile == 'einasto':
        return lambda r: math.exp(-2 / p['alpha'] * ((r / rs) ** p['alpha'] - 1))
    al, be, ga = {'nfw': (1., 3., 1.), 'hernquist': (1., 4., 1.)}.get(profile) or (p['alpha'], p['beta'], p['gamma'])
    return lambda r: (r / rs) ** -ga * (1 + (r / rs) ** al) ** ((ga - be) / al)


GLX, GLW = np.polynomial.legendre.leggauss(60)


def mass(f, lo, hi):
    """4 pi int r^2 f over the logarithm of r, Gauss-Legendre on short pieces"""
    lo = max(lo, 1e-8)
    e = np.linspace(math.log(lo), math.log(hi), max(2, int(2 * math.log(hi / lo)) + 2))
    t = 0.
    for a, b in zip(e[:-1], e[1:]):
        r = np.exp(.5 * (b - a) * GLX + .5 * (a + b))
        t += .5 * (b - a) * float(np.sum(GLW * r ** 3 * np.array([f(x) for x in r])))
    return 4 * math.pi * t


def level(pts, a, b, c):
    return (pts[:, 0] / a) ** 2 + (pts[:, 1] / b) ** 2 + (pts[:, 2] / c) ** 2


def explore(X):
    import cosmic_profiles.mock_tools.mock_halo_gen as mh
    import cosmic_profiles.common.python_routines as pr
    real = getattr(mh, 'Pool', None)
    order = ['fwd']

    Stand = pool.make(order)

    def grid(n, kind, R):
        return np.logspace(math.log10(.03 * R), math.log10(R), n) if kind == 'log' else np.linspace(R / n, R, n) if kind == 'lin' else R * np.array([.3 + .7 * (k / (n - 1)) ** 2 for k in range(n)])

    def gen(tot, res, pars, prof, a, b, c, realpool=False):
        X.step()
        if real is not None:
            mh.Pool = real if realpool else Stand
        try:
            return mh.genHalo(tot, res, dict(pars), prof, a, b, c)
        finally:
            if real is not None:
                mh.Pool = real

    def judge(h, tot, res, pars, prof, a0, b0, c0, why):
        f = shape(prof, pars)
        total = mass(f, 1e-8, a0[-1])
        a, b, c = a0, b0, c0
        m1 = mass(f, a[0], a[1])
        x = res * m1 / total
        while round(x) == 0 and len(a) > 2:
            a, b, c = (v[::2] if len(v) % 2 else np.append(v[::2], v[-1]) for v in (a, b, c))
            m1 = mass(f, a[0], a[1])
            x = res * m1 / total
        if abs(x - math.floor(x) - .5) < 1e-6:
            X.skipped += 1
            return None
        n1 = round(x)
        if n1 == 0:
            if h is not ValueError:
                raise Violation("%s: a resolution that leaves the shells empty was accepted" % why)
            X.ok()
            return 'rejected'
        if h is ValueError:
            raise Violation("%s: rejected, although the first proper shell has %d particles" % (why, n1))
        px, py, pz, mp, rs = h
        pts = np.column_stack([px, py, pz])
        n = len(pts)
        ms = [mass(f, a[k - 1] if k else 1e-8, a[k]) for k in range(len(a))]
        exp = [n1 * m / m1 for m in ms]
        # every particle's shell
        inside = np.array([level(pts, a[k], b[k], c[k]) <= 1 + 1e-9 for k in range(len(a))]).reshape(len(a), n)
        deep = np.array([level(pts, a[k], b[k], c[k]) <= 1 - 1e-9 for k in range(len(a))]).reshape(len(a), n)
        if n and not inside[-1].all():
            raise Violation("%s: %d particles outside the outermost shell" % (why, (~inside[-1]).sum()))
        for k in range(len(a)):
            e = exp[k]
            want = {round(e - 1e-6 * max(1, e)), round(e + 1e-6 * max(1, e))}
            got = {int(inside[k].sum() - (deep[k - 1].sum() if k else 0)), int(deep[k].sum() - (inside[k - 1].sum() if k else 0))}
            if not want & set(range(min(got), max(got) + 1)):
                raise Violation("%s: shell %d (%g to %g) holds %s particles, the model has %g" % (why, k, a[k - 1] if k else 0, a[k], sorted(got), e))
        if abs(n - res) > res * abs(n1 / x - 1) + .5 * len(a) + 1:
            raise Violation("%s: %d particles for a requested resolution of %d" % (why, n, res))
        if not abs(mp * n / tot - 1) < 1e-6:
            raise Violation("%s: particle mass %r times %d particles is not the total mass %r" % (why, mp, n, tot))
        if not abs(rs * total / tot - 1) < 1e-6:
            raise Violation("%s: rho_s = %r, total mass over model integral = %r" % (why, rs, tot / total))
        X.ok()
        return n

    def halo(c):
        prof, pars = MODELS[c['m']]
        base = None
        for (n, kind), R, (qb, qc), res in itertools.product([tuple(s) for s in c['shells']], c['R'], [tuple(q) for q in c['ratios']], c['res']):
            a = grid(n, kind, R)
            if c['twist']:
                tb, tc = np.linspace(1., qb, n), np.linspace(qb, qc, n)      # the shells' shapes change with radius, every axis growing
                b, cc = a * tb, a * tc
                if np.any(np.diff(b) <= 0) or np.any(np.diff(cc) <= 0):
                    continue
            else:
                b, cc = a * qb, a * qc
            why = "%s %s, resolution %d, %d %s shells to %g, axis ratios %g %g%s" % (prof, pars, res, n, kind, R, qb, qc, ', twisting' if c['twist'] else '')
            keep = [v.copy() for v in (a, b, cc)]
            try:
                order[0] = 'fwd'
                h = gen(c['tot'], res, pars, prof, a, b, cc)
            except ValueError:
                h = ValueError
            if not all(np.array_equal(v, k) for v, k in zip((a, b, cc), keep)):
                raise Violation("%s: the axis arrays were changed" % why)
            r = judge(h, c['tot'], res, pars, prof, *keep, why)
            X.state(c['m'], n, kind, R, qb, qc, res, c['twist'])
            X.outcome(r, c['m'])
            if isinstance(r, int):
                for o in ('rev',) + tuple(itertools.permutations(range(3), 3)) if c['orders'] else ():
                    order[0] = o
                    g = gen(c['tot'], res, pars, prof, a, b, cc)
                    if not all(np.array_equal(x, y) for x, y in zip(h, g)):
                        raise Violation("%s: the halo depends on the order in which the workers draw the shells (%s)" % (why, o))
                    X.ok()
                if c['real']:
                    g = gen(c['tot'], res, pars, prof, a, b, cc, realpool=True)
                    if not all(np.array_equal(x, y) for x, y in zip(h, g)):
                        raise Violation("%s: the halo differs between one process and the worker pool" % why)
                    X.ok()

    def spheres(c):
        n = c['n']
        for q in (None, (1., 1., 1.), (2., .5, .1), (.3, 1., 4.), (1e-3, 1., 50.)):
            p = np.array(pr.fibonacci_sphere(n) if q is None else pr.fibonacci_ellipsoid(*q, samples=n))
            X.step()
            if p.shape != (n, 3):
                raise Violation("%d points asked, got shape %s" % (n, p.shape))
            lv = level(p, *(q or (1., 1., 1.)))
            if np.any(~(np.abs(lv - 1) < 1e-9)):
                raise Violation("points off the surface for %d points, axes %s: level %s" % (n, q, lv))
            u = p / np.array(q or (1., 1., 1.))
            if n > 1:
                d = np.linalg.norm(u[:, None] - u[None], axis=2) + 9 * np.eye(n)
                if d.min() < .5 * math.sqrt(4 * math.pi / n) * .5:
                    raise Violation("%d points, axes %s: two points at distance %g on the unit sphere" % (n, q, d.min()))
                if n >= 20 and np.abs(u.mean(axis=0)).max() > 3. / n:
                    raise Violation("%d points, axes %s: not spread evenly, mean %s" % (n, q, u.mean(axis=0)))
            X.ok()
            X.outcome(n, q)
        X.state('sphere', n)

    def draws(c):
        a, b, cc = (np.array(v) if v is not None else None for v in c['axes'])
        K = len(a)
        for N in c['N']:
            for dims in (3, 2):
                for k in range(K):
                    nn = np.array([N + 3 * j for j in range(K)], dtype=np.int32)
                    ca = cc if dims == 3 else [None] * K
                    r = pr.drawUniformFromEllipsoid(dims, a, b, ca, nn, k)
                    X.step()
                    if isinstance(r, tuple):
                        p, kk = r
                        if kk != k:
                            raise Violation("drawUniformFromEllipsoid returns ellipsoid number %s for %d" % (kk, k))
                    else:
                        p = r
                    ax = np.array([a[k], b[k], cc[k]])[:dims]
                    if p.shape != (nn[k], dims):
                        raise Violation("ellipsoid draw: shape %s for %d points in %d dimensions" % (p.shape, nn[k], dims))
                    u = p / ax
                    if np.any(~((u ** 2).sum(axis=1) <= 1 + 1e-9)):
                        raise Violation("ellipsoid draw %d in %d dimensions: points outside the axes %s" % (k, dims, ax))
                    if N >= 300:            # filled evenly: first and second moments within 8 standard errors
                        e2 = 1 / (dims + 2.)
                        s2 = math.sqrt((3. / ((dims + 2) * (dims + 4)) - e2 ** 2) / N)
                        if np.abs(u.mean(axis=0)).max() > 8 * math.sqrt(e2 / N) or np.abs((u ** 2).mean(axis=0) - e2).max() > 8 * s2:
                            raise Violation("ellipsoid draw %d, axes %s: not uniform, moments %s %s (expected 0, %g)" % (k, ax, u.mean(axis=0), (u ** 2).mean(axis=0), e2))
                    X.ok()
                    X.outcome('e', dims, k, N, p.tobytes())
                    if dims == 3:
                        p = pr.drawUniformFromShell(3, a, b, cc, nn, k)
                        p = p[0] if isinstance(p, tuple) else p
                        X.step()
                        if p.shape != (nn[k], 3):
                            raise Violation("shell draw: shape %s for %d points" % (p.shape, nn[k]))
                        for j, x in enumerate(p):
                            lo = level(x[None], a[k - 1], b[k - 1], cc[k - 1])[0] if k else 2.
                            hi = level(x[None], a[k], b[k], cc[k])[0]
                            if not (hi <= 1 + 1e-9 and lo >= 1 - 1e-9):
                                raise Violation("shell draw %d: point %s outside its shell (levels %g %g)" % (k, x, lo, hi))
                            for s in range(K):
                                l1 = level(x[None], a[s], b[s], cc[s])[0]
                                l0 = level(x[None], a[s - 1], b[s - 1], cc[s - 1])[0] if s else 2.
                                if min(abs(l1 - 1), abs(l0 - 1)) > 1e-9 and bool(pr.inShell(x, a, b, cc, s)) != bool(l1 <= 1 < l0):
                                    raise Violation("inShell(%s, shell %d of %s) = %s" % (x, s, a, pr.inShell(x, a, b, cc, s)))
                        if N >= 300 and np.abs((p > 0).mean(axis=0) - .5).max() > 8 * .5 / math.sqrt(N):
                            raise Violation("shell draw %d: one-sided, fractions %s" % (k, (p > 0).mean(axis=0)))
                        X.ok()
                        X.outcome('s', k, N, p.tobytes())
        X.state('draw', c['axes'])

    allr = [(1., 1.), (.8, .5), (.3, .1), (1., .4), (.6, .6)]
    sh = [(n, k) for n in (2, 3, 4, 5, 7, 12, 20) for k in ('log', 'lin', 'quad')]
    cs = []
    for m in range(len(MODELS)):
        for tw in (False, True):
            for i in range(0, len(sh), 3):
                if X.quick:
                    cs.append(dict(m=m, shells=sh[i:i + 3], R=[1.] if i % 2 else [.37], ratios=[allr[(i + m) % 5], allr[1]], res=[3, 20, 60, 151], tot=1e12 if m % 2 else 3.3, twist=tw, orders=i % 6 == 0, real=False))
                else:
                    for t in (3.3, 1e12):
                        cs.append(dict(m=m, shells=sh[i:i + 3], R=[.37, 1., 25.], ratios=allr, res=[1, 2, 3, 5, 10, 20, 37, 60, 100, 151, 400, 1000], tot=t, twist=tw, orders=True, real=False))
    cs += [dict(m=m, shells=[(6, 'log')], R=[1.], ratios=[(.8, .5)], res=[90], tot=1e12, twist=True, orders=False, real=True) for m in ((0,) if X.quick else range(len(MODELS)))]
    cs += [dict(m=m, shells=[(40, 'log'), (8, 'lin')], R=[1.], ratios=[(.8, .5)], res=[40000], tot=1e12, twist=m % 2 == 0, orders=False, real=False) for m in (range(0, len(MODELS), 2) if X.quick else range(len(MODELS)))]
    X.each(cs, halo, group='mock halos')
    X.each([dict(n=n) for n in (list(range(1, 40)) + [50, 100, 257, 700] if X.quick else list(range(1, 300)))], spheres, group='point sets')
    ax = [([.2, .5, 1.], [.1, .4, .9], [.05, .3, .8]), ([1.], [1.], [1.]), ([2., 3.], [1., 1.1], [.2, 1.]), ([.5, .5001, 40.], [.4, .4001, 1.], [.1, .1001, .9]), ([1., 2., 3., 4.], [1., 2., 3., 4.], [1., 2., 3., 4.])]
    X.each([dict(axes=x, N=[n]) for x in ax for n in ([0, 1, 2, 7, 300, 40000] if X.quick else list(range(0, 12)) + [50, 300, 2000, 40000])], draws, group='draws')
    X.bounds.update(models=len(MODELS), shells=20, resolution=151 if X.quick else 1000)
