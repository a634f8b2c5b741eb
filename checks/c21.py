"""C21 masses and centres of objects."""
import itertools
import numpy as np
import refmodel as rm, worlds, big
from mc import Violation

META = {"assumptions": ["centres decided within 2e-6 of a shrinking-sphere surface are left uncompared"]}
R = (0.3, 0.2, 0.1)


def explore(X):
    import cosmic_profiles as cp

    def compare(cat, obj, sel, what):
        got = obj.getMassesCenters(sel)
        X.step()
        if len(got) != len(sel):
            raise Violation("%d rows for a selection of %d" % (len(got), len(sel)))
        for i, o in enumerate(sel):
            m, c, tie = cat.mass_center(o)
            if not rm.close(got['mass'][i], m, 1e-6):
                raise Violation("%s object %d: mass %r, expected %r" % (what, o, got['mass'][i], m))
            if tie:
                X.skipped += 1
                continue
            L = (cat.L or 10.) * cat.u.lout
            if not np.all(np.abs(np.asarray(got['centre'][i]) - c) <= 1e-6 * L):
                raise Violation("%s object %d: centre %s, expected %s" % (what, o, got['centre'][i], c))
            X.ok()
            X.outcome(what, o, tuple(np.round(c / L, 5)))

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        ctr = {'mid': (.5, .5, .5), 'corner': (.0, .99, .01), 'face': (.5, .98, .3), 'open': (.1, .5, .01)}[c['at']]
        spec = [(n, .5, (.6, .4, .3), ctr, n, R) for n in c['sizes']]
        mf = {'var': None, 'equal': lambda i: np.full(len(i), .5), 'steep': lambda i: 10. ** (-3 + i % 5), 'one': lambda i: np.where(i % 7 == 3, 10., .01)}[c['mass']]
        cat = worlds.make(u, spec, how=c['how'], order=c['order'], massfn=mf)
        if c['at'] == 'open':                        # no periodicity: box size zero, coordinates of any size and sign
            pos = worlds.make(u, spec, order=c['order'], massfn=mf, wrap=False).xyz_in + np.array([-17., 40., 0.]) / u.lin
            cat = rm.Cat(pos, cat.m_in, cat.idx_in, cat.r200_in, 0., u, 1, c['how'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state(tuple(sorted((k, str(v)) for k, v in c.items())))
        n = len(c['sizes'])
        for sel in [list(range(n)), list(range(n))[::-1]] + [[k] for k in range(n)]:
            compare(cat, obj, sel if len(sel) > 1 else np.array(sel), c['sizes'])

    sizes = [[n] for n in range(1, 13)] + [[49], [50], [51], [130]] + [list(p) for p in itertools.permutations((1, 4, 5, 20), 3)] + [[3, 60, 7, 2, 11]]
    cs = [dict(sizes=s, how=h, order=od, units=un, mass=m, at=at) for s in sizes for h in ('com', 'mode') for od in ('inter', 'block', 'rev')
          for un in ('int', 'a', 'b', 'c', 'd') for m in ('var', 'equal', 'steep', 'one') for at in ('mid', 'corner', 'face', 'open')
          if not (X.quick and ((od == 'rev') != (un == 'c') or (un in 'ab' and m in ('equal', 'one'))))]
    X.each(cs, fn)

    # Micro space: all subsets of a small lattice of points with two mass values: every subset of 4..7 of 9 sites
    sites = np.array([(0, 0, 0), (1, .2, 0), (-.7, .4, .1), (0, .9, .3), (.2, -1.1, 0), (.05, .02, .9), (.1, 0, -1.2), (.11, .05, .02), (-.07, .03, .06)]) * .3
    combos = [(s, k) for n in range(1, 10) for s in itertools.combinations(range(9), n) for k in range(n + 1)]

    def micro(c):
        u = worlds.set_units(cp, 'b')
        part = combos[c['from']:c['from'] + 400]
        pos, m, idx = [], [], []
        for s, k in part:
            idx.append(list(range(len(pos), len(pos) + len(s))))
            pos += list(sites[list(s)] + np.array(c['at']))
            m += [1.0 if j != k else 9.0 for j in range(len(s))]
        cat = rm.Cat((np.array(pos) % 10.) / u.lin, np.array(m) / u.min, idx, np.full(len(part), .5) / u.lin, 10. / u.lin, u, 1, c['how'])
        obj = worlds.build(cp, cat, X.scratch)
        compare(cat, obj, list(range(len(part))), 'micro')
        X.state('micro', c['from'], c['how'], c['at'])
        for p in part:
            X.state('micro', p)
    X.each([{'from': k, 'how': h, 'at': at} for k in range(0, len(combos), 400) for h in ('com', 'mode') for at in ((5., 5., 5.), (.0, 9.99, 5.), (.1, 0.2, 9.8))], micro, group='micro')

    # more particles and objects than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        cat = big.world(u, c['how'], c['order'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('large', c['how'], c['order'], c['units'])
        for sel in big.SELS:
            compare(cat, obj, sel, 'large')
    X.each([dict(how=h, order=o, units=un) for h, o, un in (('com', 'inter', 'int'), ('com', 'block', 'd'), ('mode', 'rev', 'b'))], large, group='large')
