"""C10 velocity-dispersion shapes, against the reference iteration."""
import numpy as np
import refmodel as rm, worlds, gworld, shapecmp, big
from mc import Violation

META = {"assumptions": ["decisions within 2e-6 of a tie are left uncompared", "snapshots are read in double precision", "objects without any velocity dispersion are left open"]}
R = (0.3, 0.2, 0.1)
H = {
    'one': [(60, 7, 1, .6, (.8, .6, .4), (.5, .5, .5), 1, R)],
    'two': [(40, 5, 2, .5, (.5, .4, .3), (.02, .5, .97), 5, None), (130, 9, 3, .9, (.9, .8, .25), (.7, .01, .4), 6, (1., .4, .2))],
    'mix': [(80, 4, 1, .4, (.5, .4, .3), (.2, .2, .2), 7, R), (3, 6, 2, .6, (.5, .4, .3), (.5, .99, .5), 8, None), (9, 0, 0, .5, (.5, .4, .3), (.8, .3, .1), 11, R),
            (33, 2, 1, 1.1, (.9, .5, .5), (.99, .99, .99), 9, (.7, .1, 1.2))],
}


def field(name, bulk):
    def f(N):
        g = np.random.default_rng(11)
        v = g.normal(size=(N, 3))
        if name == 'aniso':
            v = v * [120., 60., 30.]
        elif name == 'rot':
            v = v * [120., 60., 30.] @ np.array([[.6, .8, 0], [-.8, .6, 0], [0, 0, 1.]])
        elif name == 'iso':
            v = v * 80.
        elif name == 'heavy':
            v = v * [90., 50., 40.] * (1 + 3 * (np.arange(N) % 7 == 0))[:, None]
        elif name == 'radial':
            v = np.sign(v) * v ** 2 * [200., 120., 150.]
        return v + np.asarray(bulk)
    return f


def explore(X):
    import cosmic_profiles as cp

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        kw = dict(otype=c['otype'], how=c['how'], rdef=c['rdef'], kind=c['kind'], splits=c['splits'], time=c['time'], z=1 / c['time'] - 1)
        w = gworld.make(X.scratch, u, H[c['halos']], velfn=field(c['field'], c['bulk']), **kw)
        cat = w[0]
        obj = gworld.build(cp, w, X.scratch, c['otype'], c['rdef'])
        rad = {'lin': np.linspace(.3, 1.3, 5), 'one': [1.1]}[c['radii']]
        kz = worlds.katz(rad, c['tol'], c['wall'], c['imin'], c['red'], c['shell'])
        X.state(tuple(sorted((k, str(x)) for k, x in c.items())))
        v = obj.getVelXYZ()
        if not rm.close(v, cat.vel, 2e-6, 1e-9):
            raise Violation("velocities %s..., written %s..." % (v[:2], cat.vel[:2]))
        n, refs = len(cat.objs), {}
        sels = [list(range(n))] + ([list(range(n))[::-1]] if n > 1 else []) + [[k] for k in range(n)]
        for sel in sels:
            loc, glo = obj.getShapeCatVelLocal(sel, katz_config=kz), obj.getShapeCatVelGlobal(sel, katz_config=kz)
            X.step(2)
            for i, o in enumerate(sel):
                if o not in refs:
                    refs[o] = (cat.shape_local(o, kz, vel=True), cat.shape_global(o, kz, vel=True))
                for k, (ref, tie) in enumerate(refs[o][0]):
                    shapecmp.compare(X, shapecmp.row(loc, i, k), ref, tie, u, "local velocity shape of object %d, radius %d" % (o, k))
                shapecmp.compare(X, shapecmp.row(glo, i), refs[o][1][0], refs[o][1][1], u, "overall velocity shape of object %d" % o)

    cs = []
    for h in H:
        for how in ('com', 'mode'):
            for f in ('aniso', 'rot', 'iso', 'heavy', 'radial'):
                for bk in ((0, 0, 0), (250., -80., 33.), (3000., 0., -1500.)):
                    for un in ('int', 'a', 'b', 'c'):
                        for tol, wall in ((1e-2, 100), (1e-2, 4), (0.2, 100), (.1, 1)):
                            for imin in (10, 5, 36):
                                for red in (False, True):
                                    for sh in (False, True):
                                        k = len(cs)
                                        cs.append(dict(halos=h, how=how, field=f, bulk=bk, units=un, tol=tol, wall=wall, imin=imin, red=red, shell=sh, radii=('lin', 'lin', 'one')[k % 3],
                                                       otype=('dm', 'gas', 'stars')[k % 3], rdef=('Rvir', 'R200')[k // 2 % 2], kind=('hdf5', 'bin')[k // 5 % 2], splits=1 + k // 7 % 3, time=(1., .25, .5)[k // 4 % 3]))
    if X.quick:
        cs = [c for k, c in enumerate(cs) if k % 17 == 0 or (c['field'], c['units']) == ('rot', 'a') and k % 3 == 0]
    X.bounds['field'] = '5 velocity fields x 3 bulk velocities'
    X.each(cs, fn)

    # more particles than narrow counters hold, in a snapshot of three files
    def large(c):
        u = worlds.set_units(cp, c['units'])
        w = gworld.make(X.scratch, u, big.HALOS, velfn=field('rot', (250., -80., 33.)), otype='dm', how='com', kind=c['kind'], splits=c['splits'], fof_splits=2, others=False)
        cat = w[0]
        obj = gworld.build(cp, w, X.scratch, 'dm', 'Rvir')
        X.state('large', c['kind'], c['splits'])
        if not rm.close(obj.getVelXYZ(), cat.vel, 2e-6, 1e-9):
            raise Violation("large snapshot: velocities differ from those written")
        kz = worlds.katz([.4, 1.1], 1e-2, 100, 5, c['red'], False)
        for sel in ([0, 1, 2], [2, 0]):
            loc, glo = obj.getShapeCatVelLocal(sel, katz_config=kz), obj.getShapeCatVelGlobal(sel, katz_config=kz)
            X.step(2)
            for i, o in enumerate(sel):
                for k, (rf, tie) in enumerate(cat.shape_local(o, kz, vel=True)):
                    big.compare(X, shapecmp.row(loc, i, k), rf, tie, u, 0, "local velocity shape of large object %d" % o)
                rf, tie = cat.shape_global(o, kz, vel=True)
                big.compare(X, shapecmp.row(glo, i), rf, tie, u, 0, "overall velocity shape of large object %d" % o)
    X.each([dict(units='int', kind='hdf5', splits=3, red=False), dict(units='b', kind='bin', splits=2, red=True)], large, group='large')

    # the mean velocity is subtracted as exactly from many particles as from few, however fast the object moves
    def fast(c):
        u = worlds.set_units(cp, c['units'])
        w = gworld.make(X.scratch, u, [(c['n'], 100, 1, .9, (.8, .6, .4), (.3, .6, .5), 1, big.R)], velfn=field('rot', c['bulk']), otype='dm', how='com', kind='hdf5', others=False, massarr=c['equal'])
        cat = w[0]
        obj = gworld.build(cp, w, X.scratch, 'dm', 'Rvir')
        kz = worlds.katz([.6, 1.1], 1e-2, 100, 5, c['red'], False)
        X.state('fast', *c.values())
        loc, glo = obj.getShapeCatVelLocal([0], katz_config=kz), obj.getShapeCatVelGlobal([0], katz_config=kz)
        X.step(2)
        for k, (rf, tie) in enumerate(cat.shape_local(0, kz, vel=True)):
            big.compare(X, shapecmp.row(loc, 0, k), rf, tie, u, int(c["n"] < 5000), "local velocity shape of an object of %d particles moving at %s" % (c['n'], c['bulk']))
        rf, tie = cat.shape_global(0, kz, vel=True)
        big.compare(X, shapecmp.row(glo, 0), rf, tie, u, int(c["n"] < 5000), "overall velocity shape of an object of %d particles moving at %s" % (c['n'], c['bulk']))
    X.each([dict(n=n, bulk=bk, equal=e, red=r, units=un) for n in (300, 8000, 120000) for bk in ((0., 0., 0.), (30000., 0., -15000.)) for e, r, un in ((True, False, 'a'), (False, True, 'int'), (True, True, 'b'), (False, False, 'c'))
            if not X.quick or n != 120000 or un == 'a'], fast, group='fast')
