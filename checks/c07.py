"""C07 ellipsoidal density profiles: bounded family of clouds x settings x selections, against the reference."""
import itertools
import numpy as np
import refmodel as rm, worlds, big
from mc import Violation

META = {"assumptions": ["the ellipsoids are the implementation's own local shape profile (decided separately by C09)",
                        "values decided within 2e-6 of a surface are left uncompared"]}

SPECS = {
    'A1': [(300, 0.6, (.8, .6, .4), (.5, .5, .5), 1, (.3, .7, .2))],
    'A2': [(200, 0.6, (.8, .5, .45), (.98, .5, .02), 2, (1., .2, .4)), (350, 1.0, (1.2, 1.0, .7), (.3, .99, .6), 3, None)],
    'A3': [(150, 0.5, (.6, .55, .3), (.2, .2, .2), 4, (.5, .5, .5)), (400, 0.8, (1., .5, .5), (.6, .2, .6), 5, (.1, .2, .3)), (220, 0.7, (.9, .7, .6), (.01, .7, .3), 6, None)],
}
KATZ = {'k6': worlds.katz(np.logspace(-0.6, 0, 6)), 'k12': worlds.katz(np.linspace(0.3, 1.1, 12)), 'k5r': worlds.katz(np.linspace(0.35, 1.2, 5), reduced=True),
        'k3s': worlds.katz([0.4, 0.8, 1.1], shell=True, imin=5), 'k2': worlds.katz([0.5, 1.0]), 'kgap': worlds.katz(np.linspace(.15, 1.2, 9), 1e-3, 5),
        'kgap2': worlds.katz(np.linspace(.1, 1.3, 7), 1e-2, 4, 25, True, True)}
RADII = {'r3': [0.4, 0.7, 1.0], 'r5': [0.2, 0.4, 0.6, 0.8, 1.0], 'r9': list(np.logspace(-0.7, 0.1, 9)), 'r4out': [0.5, 0.9, 1.4, 1.5]}


def shapes_int(obj, sel, kz, u):
    sh = obj.getShapeCatLocal(sel, katz_config=kz)
    out = []
    for i in range(len(sel)):
        out.append({'d': sh['d'][i] / u.lout, 'q': sh['q'][i], 's': sh['s'][i], 'major': sh['major'][i], 'inter': sh['inter'][i],
                    'minor': sh['minor'][i], 'conv': bool(np.all(sh['is_conv'][i]))})
    return out


def explore(X):
    import cosmic_profiles as cp

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        cat = worlds.make(u, worlds.scaled(SPECS[c['spec']], c.get('scale', 1.)), L=10. * c.get('scale', 1.), how=c['how'], order=c['order'], open=c['units'] == 'a')
        obj = worlds.build(cp, cat, X.scratch)
        kz = KATZ[c['katz']]
        n = len(cat.objs)
        X.state(tuple(sorted(c.items())))
        for sel in [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]:
            sh = shapes_int(obj, sel, kz, u)
            X.step()
            for rn, r in RADII.items():
                got = np.asarray(obj.estDensProfs(np.array(r), sel, direct_binning=True, spherical=False, katz_config=kz))
                X.step()
                if got.shape != (len(sel), len(r)):
                    raise Violation("result for %s, %s has shape %s" % (rn, sel, got.shape))
                for i, o in enumerate(sel):
                    if not sh[i]['conv']:
                        X.count('profiles_on_partly_converged_shapes')
                    ref, tie = cat.dens_ell(o, r, sh[i])
                    if tie:
                        X.skipped += 1
                        continue
                    if not rm.close(got[i], ref, 2e-5):
                        raise Violation("object %d of %s, radii %s:\n got %s\n expected %s" % (o, sel, rn, got[i], ref))
                    X.ok()
                    X.outcome(c['spec'], c['katz'], rn, o, tuple(np.round(np.log10(np.where(np.isnan(ref), 1, ref)), 3)))

    cs = [dict(spec=s, how=h, order=od, units=un, katz=k) for s in SPECS for h in ('com', 'mode') for od in ('inter', 'block') for un in ('int', 'a', 'd')
          for k in KATZ if not (X.quick and ((od == 'block') != (un == 'a')))]
    X.each(cs, fn)
    # galaxies of a few hundred parsecs, structures of a hundred megaparsecs
    X.each([dict(d, scale=f) for d in cs for f in (3e-4, 300.) if d['order'] == 'inter' and d['units'] in (('d',) if X.quick else ('int', 'd'))], fn, group='scales')

    def toofew(c):
        u = worlds.set_units(cp, 'b')
        cat = worlds.make(u, SPECS['A2'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('few', c['n'])
        X.step()
        try:
            obj.estDensProfs(np.linspace(.3, 1, c['n']) if c['n'] else np.array([]), c['sel'], direct_binning=True, spherical=False, katz_config=KATZ['k6'])
        except ValueError:
            X.ok()
            return
        raise Violation("ellipsoidal profile with %d radii was not rejected" % c['n'])
    X.each([dict(n=n, sel=s) for n in (1, 2) for s in ([0], [1], [0, 1])], toofew, group='too-few-radii')

    # Micro space: a heavy body fixes the shape; one light mirrored pair is put just inside / outside every surface
    # along each principal direction and the diagonals; all placements, one object each.
    def micro(c):
        u = worlds.set_units(cp, c['units'])
        kz, r = KATZ[c['katz']], np.array(RADII[c['radii']])
        r200, L = 0.7, 10.0
        half = rm.cloud(60, (.8, .6, .45), 40 + c['body'], (.4, .9, .1))
        body = np.concatenate([half, -half])

        def world(pairs):
            pos, m, idx = [], [], []
            for p in pairs:
                x = np.concatenate([body] + ([np.array([p, -p])] if p is not None else []))
                idx.append(list(range(len(pos), len(pos) + len(x))))
                pos += list(x + np.array([4., 5., 6.]))
                m += [1.0] * len(body) + [1e-4] * (len(x) - len(body))
            return rm.Cat(np.array(pos) / u.lin, np.array(m) / u.min, idx, np.full(len(pairs), r200) / u.lin, L / u.lin, u, 1, 'com')
        cat = world([None])
        sh = shapes_int(worlds.build(cp, cat, X.scratch), [0], kz, u)[0]
        if not sh['conv']:
            X.skipped += 1
            return
        mid = (r[:-1] + r[1:]) / 2
        edges = np.concatenate([[mid[0] ** 2 / mid[1]], mid, r[-1:]]) * r200
        pairs = []
        for e in range(len(edges)):
            qe = rm._interp_extrap(sh['d'], sh['d'] * sh['q'], np.array([edges[e]]))[0]
            se = rm._interp_extrap(sh['d'], sh['d'] * sh['s'], np.array([edges[e]]))[0]
            for k in {max(e - 1, 0), min(e, len(r) - 1)}:
                A = np.array([[rm._interp_extrap(sh['d'], sh[ax][:, j], np.array([r[k] * r200]))[0] for j in range(3)] for ax in ('major', 'inter', 'minor')])
                A /= np.linalg.norm(A, axis=1)[:, None]
                for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (.57735, .57735, .57735), (.6, -.8, 0), (0, .6, -.8), (-.8, 0, .6)):
                    for f in (1 - 2e-3, 1 + 2e-3):
                        pairs.append((np.array(w) * np.array([edges[e], qe, se]) * f) @ A)
        cat = world(pairs)
        obj = worlds.build(cp, cat, X.scratch)
        sel = list(range(len(pairs)))
        shs = shapes_int(obj, sel, kz, u)
        got = np.asarray(obj.estDensProfs(r, sel, direct_binning=True, spherical=False, katz_config=kz))
        X.step(2)
        for i in sel:
            if not shs[i]['conv']:
                X.skipped += 1
                continue
            ref, tie = cat.dens_ell(i, r, shs[i])
            if tie:
                X.skipped += 1
                continue
            # compare the light pair's contribution, not only the sum (1e-4 of a body particle each)
            if not rm.close(got[i], ref, 1.5e-5):
                raise Violation("pair at %s: got %s expected %s" % (pairs[i], got[i], ref))
            X.ok()
            X.state('micro', c['katz'], c['radii'], c['body'], i)
    X.each([dict(katz=k, radii=rr, body=b, units=un) for k in ('k6', 'k12', 'k2', 'k5r') for rr in RADII for b in range(2 if X.quick else 6) for un in (('int',) if X.quick else ('int', 'd'))], micro, group='micro')

    # more particles and objects than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        cat = big.world(u, c['how'], c['order'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('large', c['how'], c['order'], c['units'])
        kz = worlds.katz(np.logspace(-1, .2, 6), 1e-2, 100, 5)
        r = [.15, .3, .5, .8, 1.2]
        sel = big.SELS[0]
        sh = shapes_int(obj, sel, kz, u)
        got = np.asarray(obj.estDensProfs(np.array(r), sel, direct_binning=True, spherical=False, katz_config=kz))
        X.step(2)
        for i, o in enumerate(sel):
            ref, tie = cat.dens_ell(o, r, sh[i])
            if tie and o not in big.BIG:
                X.skipped += 1
            elif not rm.close(got[i], ref, big.rtol(o, 2e-5)):
                raise Violation("object %d of 302:\n got %s\n expected %s" % (o, got[i], ref))
            X.ok()
    X.each([dict(how=h, order=o, units=un) for h, o, un in (('com', 'inter', 'int'), ('com', 'block', 'd'), ('mode', 'rev', 'b'))], large, group='large')
