"""C09 shape profiles: bounded family of clouds x settings, compared with the reference iteration."""
import itertools
import numpy as np
import refmodel as rm, worlds, shapecmp, big
from mc import Violation

META = {"assumptions": ["decisions within 2e-6 of a tie (membership, convergence, degenerate axes) are left uncompared", "flat or single-point particle sets are left open"]}
R = (0.3, 0.2, 0.1)
SPECS = {
    's1': [(40, .6, (.8, .6, .4), (.5, .5, .5), 1, R)],
    's2': [(12, .5, (.5, .4, .3), (.02, .5, .97), 5, None), (120, .9, (.9, .8, .25), (.7, .01, .4), 6, (1., .4, .2))],
    's3': [(60, .4, (.5, .4, .3), (.2, .2, .2), 7, R), (3, .6, (.5, .4, .3), (.5, .99, .5), 8, None), (33, 1.1, (.9, .5, .5), (.99, .99, .99), 9, (.7, .1, 1.2))],
    's4': [(1, .4, (.5, .4, .3), (.2, .2, .2), 7, None), (90, .0, (.9, .5, .5), (.9, .9, .9), 9, R), (15, .7, (.9, .5, .4), (.4, .9, .5), 12, R)],
    's5': [(400, .7, (1.5, .6, .5), (.5, .5, .0), 3, (.5, 1.1, 2.))],
}


def explore(X):
    import cosmic_profiles as cp

    def check(cat, obj, sel, kz, u, refs):
        loc = obj.getShapeCatLocal(sel, katz_config=kz)
        glo = obj.getShapeCatGlobal(sel, katz_config=kz)
        X.step(2)
        if loc.shape != (len(sel), len(kz['ROverR200'])) or glo.shape != (len(sel),):
            raise Violation("shapes %s %s" % (loc.shape, glo.shape))
        for i, o in enumerate(sel):
            if o not in refs:
                refs[o] = (cat.shape_local(o, kz), cat.shape_global(o, kz))
            for k, (ref, tie) in enumerate(refs[o][0]):
                shapecmp.compare(X, shapecmp.row(loc, i, k), ref, tie, u, "local shape of object %d, radius %d" % (o, k))
            shapecmp.compare(X, shapecmp.row(glo, i), refs[o][1][0], refs[o][1][1], u, "overall shape of object %d" % o)

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        f = c.get('scale', 1.)
        cat = worlds.make(u, worlds.scaled(SPECS[c['spec']], f), L=10. * f, how=c['how'], order=c['order'], open=c['units'] == 'c')
        obj = worlds.build(cp, cat, X.scratch)
        rad = {'wide': [.15, .4, 1.1], 'lin': np.linspace(.3, 1.3, 5), 'log': np.logspace(-1, .3, 8), 'one': [1.1], 'close': [.5, .52, .9, .95]}[c['radii']]
        kz = worlds.katz(rad, c['tol'], c['wall'], c['imin'], c['red'], c['shell'])
        X.state(tuple(sorted(c.items())))
        n, refs = len(cat.objs), {}
        for sel in ([list(range(n))] if n == 1 else [list(range(n)), list(range(n))[::-1]] + [[k] for k in range(n)]):
            check(cat, obj, sel if len(sel) != 2 else np.array(sel), kz, u, refs)

    cs = [dict(spec=s, how=h, order=od, units=un, radii=ra, tol=tol, wall=wall, imin=imin, red=red, shell=sh)
          for s in SPECS for h in ('com', 'mode') for od in ('inter', 'block') for un in ('int', 'a', 'b', 'c', 'd') for ra in ('lin', 'log', 'one', 'close', 'wide')
          for tol, wall in ((1e-2, 100), (1e-2, 3), (1e-4, 8), (1e-2, 2), (0.3, 1), (0.9, 100)) for imin in (10, 5, 4, 41) for red in (False, True) for sh in (False, True)
          if (sh or ra != 'wide') and not (X.quick and ((od == 'block') != (un in 'ac') or (imin == 41) != (un == 'd') or (imin == 4) != (un == 'b') or (ra in ('one', 'close')) != (tol in (0.3, 0.9, 1e-4))))]
    X.each(cs, fn)
    # galaxies of a few hundred parsecs, structures of a hundred megaparsecs
    X.each([dict(spec=s, how=h, order='inter', units=un, radii=ra, tol=1e-2, wall=100, imin=10, red=red, shell=sh, scale=f) for f in (3e-4, 300.) for s in SPECS for h in ('com', 'mode')
            for un in (('b', 'd') if X.quick else ('int', 'a', 'b', 'd')) for ra in ('log', 'wide') for red in (False, True) for sh in (False, True)], fn, group='scales')

    # default settings (70 radii), as a user gets them
    def default(c):
        u = worlds.set_units(cp, 'b')
        cat = worlds.make(u, SPECS[c['spec']], how=c['how'])
        obj = worlds.build(cp, cat, X.scratch)
        kz = worlds.DEF_KATZ
        loc, glo = obj.getShapeCatLocal(list(range(len(cat.objs)))), obj.getShapeCatGlobal(list(range(len(cat.objs))))
        X.step(2)
        X.state('default', c['spec'], c['how'])
        for o in range(len(cat.objs)):
            for k, (ref, tie) in enumerate(cat.shape_local(o, kz)):
                shapecmp.compare(X, shapecmp.row(loc, o, k), ref, tie, u, "default local shape of object %d, radius %d" % (o, k))
            ref, tie = cat.shape_global(o, kz)
            shapecmp.compare(X, shapecmp.row(glo, o), ref, tie, u, "default overall shape of object %d" % o)
    X.each([dict(spec=s, how=h) for s in SPECS for h in ('com', 'mode')], default, group='default')

    # Micro space: every subset (>= 5 points) of 11 generic sites as an object of its own, all at once
    g = rm.cloud(11, (.9, .6, .45), 321, (.4, .8, .3), power=.45)
    combos = [s for n in range(5, 12) for s in itertools.combinations(range(11), n)]
    if X.quick:
        combos = [s for s in combos if len(s) in (5, 8, 10, 11)]

    def micro(c):
        u = worlds.set_units(cp, 'b')
        part = combos[c['from']:c['from'] + 150]
        pos, m, idx = [], [], []
        for s in part:
            idx.append(list(range(len(pos), len(pos) + len(s))))
            pos += list(g[list(s)] + 5.)
            m += [1. + .3 * j for j in s]
        cat = rm.Cat(np.array(pos) / u.lin, np.array(m) / u.min, idx, np.full(len(part), .6) / u.lin, 10. / u.lin, u, 1, c['how'])
        obj = worlds.build(cp, cat, X.scratch)
        kz = worlds.katz([.5, .8, 1.2, 1.6], c['tol'], c['wall'], c['imin'], c['red'], c['shell'])
        check(cat, obj, list(range(len(part))), kz, u, {})
        for s in part:
            X.state('micro', s, c['imin'], c['tol'], c['red'], c['shell'])
    X.each([{'from': k, 'how': h, 'tol': t, 'wall': w, 'imin': im, 'red': rd, 'shell': sh} for k in range(0, len(combos), 150) for h in (('com',) if X.quick else ('com', 'mode'))
            for t, w in ((1e-2, 30), (.2, 3)) for im in (4, 6) for rd in (False, True) for sh in (False, True)], micro, group='micro')

    # A particle exactly at the centre (dyadic coordinates, total mass a power of two: the centre is exact), at every place in the list
    def central(c):
        u = worlds.set_units(cp, 'int')
        g = np.random.default_rng(c['seed'])
        half = np.round(g.normal(size=(c['pairs'], 3)) * [.5, .3, .2] * 64) / 64
        pos, m, idx = [], [], []
        for at in range(2 * c['pairs'] + 1):
            o = [x for h in half for x in (5. + h, 5. - h)]
            w = [1.] * len(o)
            o.insert(at, np.array([5., 5., 5.]))
            w.insert(at, 2.)
            idx.append(list(range(len(pos), len(pos) + len(o))))
            pos += o
            m += w
        cat = rm.Cat(np.array(pos), np.array(m), idx, np.full(len(idx), .8), 10., u, 1, 'com')
        obj = worlds.build(cp, cat, X.scratch)
        X.state('central', c['pairs'], c['seed'], c['red'], c['shell'])
        check(cat, obj, list(range(len(idx))), worlds.katz([.2, .6, 1.1, 1.6], 1e-2, 60, 4, c['red'], c['shell']), u, {})
    X.each([dict(pairs=p, seed=k, red=rd, shell=sh) for p in (7, 15) for k in range(3 if X.quick else 20) for rd in (False, True) for sh in (False, True)], central, group='central')

    # more particles and objects than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        cat = big.world(u, c['how'], c['order'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('large', c['how'], c['order'], c['units'])
        kz = worlds.katz([.3, .7, 1.1], 1e-2, 100, 5, c['units'] == 'd', c['units'] == 'b')
        for sel in big.SELS:
            loc, glo = obj.getShapeCatLocal(sel, katz_config=kz), obj.getShapeCatGlobal(sel, katz_config=kz)
            X.step(2)
            for i, o in enumerate(sel):
                ref, (gref, gtie) = cat.shape_local(o, kz), cat.shape_global(o, kz)
                for what, row, (rf, tie) in [('local', shapecmp.row(loc, i, k), t) for k, t in enumerate(ref)] + [('overall', shapecmp.row(glo, i), (gref, gtie))]:
                    big.compare(X, row, rf, tie, u, o, "%s shape of object %d of 302" % (what, o))
    X.each([dict(how=h, order=o, units=un) for h, o, un in (('com', 'inter', 'int'), ('com', 'block', 'd'), ('mode', 'rev', 'b'))], large, group='large')
