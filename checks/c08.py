"""C08 kernel density profiles: bounded family against the reference kernel sum."""
import itertools
import numpy as np
import refmodel as rm, worlds, big
from mc import Violation

META = {"assumptions": ["compared within the error of single-precision kernel arguments", "no particle exactly on the centre (kernel width 0 there)"]}

SPECS = {
    '2p': [(2, 0.5, (.4, .4, .4), (.5, .5, .5), 2, None)],
    '4p': [(4, 0.5, (.4, .4, .4), (.5, .02, .5), 3, None)],
    '1x50': [(50, 0.7, (.8, .5, .4), (.5, .5, .99), 4, (0.3, 0.2, 0.1))],
    '2x': [(7, 0.5, (.5, .4, .3), (.02, .5, .97), 5, None), (120, 0.9, (.8, .8, .2), (.7, .01, .4), 6, None)],
    '3x': [(20, 0.4, (.5, .4, .3), (.2, .2, .2), 7, None), (3, 0.6, (.5, .4, .3), (.5, .99, .5), 8, None), (33, 1.1, (.9, .9, .9), (.99, .99, .99), 9, None)],
}
BASE = [0.05, 0.1, 0.22, 0.4, 0.63, 0.9, 1.0, 1.7]


def explore(X):
    import cosmic_profiles as cp

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        cat = worlds.make(u, worlds.scaled(SPECS[c['spec']], c.get('scale', 1.)), L=10. * c.get('scale', 1.), how=c['how'], order=c['order'], massfn=None if c['mass'] == 'var' else (lambda i: 10.0 ** (-3 + (i % 5))), open=c['units'] == 'c')
        obj = worlds.build(cp, cat, X.scratch)
        n = len(cat.objs)
        X.state(tuple(sorted(c.items())))
        ref = [cat.dens_kernel(o, BASE) for o in range(n)]
        pick = [list(range(8)), list(range(8))[::-1], [3, 0, 6], [7]] + [[k] for k in range(7)] + [[0, 1, 2, 3, 4], [5, 5]]
        for sel in [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]:
            for rs in pick:
                r = np.array([BASE[k] for k in rs])
                got = np.asarray(obj.estDensProfs(r, sel, direct_binning=False, spherical=c['sph'], katz_config=worlds.katz([.5, 1.])))
                X.step()
                if got.shape != (len(sel), len(r)):
                    raise Violation("shape %s" % (got.shape,))
                for i, o in enumerate(sel):
                    v, t, tie = ref[o]
                    if tie:
                        X.skipped += 1
                        continue
                    if not np.all(np.abs(got[i] - v[rs]) <= t[rs]):
                        raise Violation("object %d of %s at radii %s:\n got %s\n expected %s +- %s" % (o, sel, r, got[i], v[rs], t[rs]))
                    X.ok()
                    X.outcome(c['spec'], o, c['how'], tuple(np.round(np.log10(np.maximum(v[rs], 1e-300)), 2)))
    cs = [dict(spec=s, how=h, order=od, units=un, mass=m, sph=sp) for s in SPECS for h in ('com', 'mode') for od in ('inter', 'rev') for un in ('int', 'a', 'b', 'c', 'd')
          for m in ('var', 'steep') for sp in (True, False) if not (X.quick and (m == 'steep') != (un in 'bd'))]
    X.each(cs, fn)
    # galaxies of a few hundred parsecs, structures of a hundred megaparsecs
    X.each([dict(d, scale=f) for d in cs for f in (3e-4, 300.) if d['order'] == 'inter' and d['units'] in (('d',) if X.quick else ('int', 'd'))], fn, group='scales')

    # Micro space: mirrored pairs at all combinations of radial slots and masses (centre exactly known).
    slots = [0.004, 0.03, 0.1, 0.37, 0.8, 1.0, 1.5]
    combos = [(p, ms) for p in itertools.product(range(len(slots)), repeat=3 if not X.quick else 2) for ms in ((1.0, 7.0, 3.0), (5.0, 1.0, .2))]

    def micro(c):
        u = worlds.set_units(cp, c['units'])
        part = combos[c['from']:c['from'] + 50]
        dirs = np.array([[.6, .64, .48], [-.36, .48, .8], [.8, -.36, .48]])
        dirs /= np.linalg.norm(dirs, axis=1)[:, None]
        pos, m, idx = [], [], []
        for sl, ms in part:
            idx.append(list(range(len(pos), len(pos) + 2 * len(sl))))
            for j in range(len(sl)):
                x = dirs[j] * slots[sl[j]] * .7
                pos += [5. + x, 5. - x]
                m += [ms[j]] * 2
        cat = rm.Cat(np.array(pos) / u.lin, np.array(m) / u.min, idx, np.full(len(part), .7) / u.lin, 10. / u.lin, u, 1, 'com')
        got = np.asarray(worlds.build(cp, cat, X.scratch).estDensProfs(np.array(BASE), list(range(len(part))), direct_binning=False))
        X.step()
        for i in range(len(part)):
            v, t, tie = cat.dens_kernel(i, BASE)
            if not np.all(np.abs(got[i] - v) <= t):
                raise Violation("pairs %s: got %s expected %s +- %s" % (part[i], got[i], v, t))
            X.ok()
            X.state('micro', part[i])
    X.each([{'from': k, 'units': un} for k in range(0, len(combos), 50) for un in ('int', 'd')], micro, group='micro')

    # Near the centre, where the kernels are narrowest: every pair of distances on a logarithmic grid, radii at and around them.
    grid = [2e-4, 1e-3, 3e-3, 0.01, 0.025, 0.06] if X.quick else [1e-4, 2e-4, 5e-4, 1e-3, 2e-3, 3e-3, 0.006, 0.01, 0.016, 0.025, 0.04, 0.06]
    near = sorted(x for d in grid for x in (d, d - .016 * np.sqrt(d), d + .012 * np.sqrt(d), d + .035 * np.sqrt(d)) if x > 0)

    def centre(c):
        u = worlds.set_units(cp, c['units'])
        pairs = list(itertools.product(grid, grid))
        r200 = c['r200']
        dirs = np.array([[.6, .64, .48], [-.36, .48, .8]])
        dirs /= np.linalg.norm(dirs, axis=1)[:, None]
        pos, m, idx = [], [], []
        for pr in pairs:
            idx.append(list(range(len(pos), len(pos) + 4)))
            for j in range(2):
                x = dirs[j] * pr[j] * r200
                pos += [5. + x, 5. - x]
                m += [(3., .5)[j]] * 2
        cat = rm.Cat(np.array(pos) / u.lin, np.array(m) / u.min, idx, np.full(len(pairs), r200) / u.lin, 10. / u.lin, u, 1, 'com')
        got = np.asarray(worlds.build(cp, cat, X.scratch).estDensProfs(np.array(near), list(range(len(pairs))), direct_binning=False))
        X.step()
        for i in range(len(pairs)):
            v, t, tie = cat.dens_kernel(i, near)
            if not np.all(np.abs(got[i] - v) <= t):
                k = int(np.argmax(np.abs(got[i] - v) - t))
                raise Violation("pairs at %s r200 (r200=%s): at r/r200=%s got %s expected %s +- %s" % (pairs[i], r200, near[k], got[i][k], v[k], t[k]))
            X.ok()
            X.state('centre', c['r200'], pairs[i])
    X.each([dict(units=un, r200=r) for un in ('int', 'b', 'd') for r in ((.08, .7, 3.) if X.quick else (.02, .08, .3, .7, 3.))], centre, group='centre')

    # more particles and objects than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        cat = big.world(u, c['how'], c['order'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('large', c['how'], c['order'], c['units'])
        for r, sel in (([.05, .3, .6, 1.1], big.SELS[0]), ([.05, .3, .6, 1.1], big.SELS[1]), (list(np.logspace(-1.5, .2, 300)), big.SELS[0])):
            got = np.asarray(obj.estDensProfs(np.array(r), sel, direct_binning=False))
            X.step()
            for i, o in enumerate(sel):
                v, t, tie = cat.dens_kernel(o, r)
                if tie and o not in big.BIG:
                    X.skipped += 1
                elif not np.all(np.abs(got[i] - v) <= t + (2e-4 * v if o in big.BIG else 0)):
                    raise Violation("object %d of 302: got %s expected %s +- %s" % (o, got[i], v, t))
                X.ok()
    X.each([dict(how=h, order=o, units=un) for h, o, un in (('com', 'inter', 'int'), ('com', 'block', 'd'), ('mode', 'rev', 'b'))], large, group='large')
