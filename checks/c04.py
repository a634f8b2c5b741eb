"""C04 object independence: every selection, catalogue order and storage order against each object analysed alone."""
import itertools
import numpy as np
import refmodel as rm, worlds, queries as Q
from mc import Violation

META = {"assumptions": ["results are compared to 1e-7 (the order of floating-point operations inside an object is not varied)"]}
R = (.3, .2, .1)
OBJ = {
    'big': (90, .6, (.8, .6, .4), (.5, .5, .5), 1, R), 'edge': (31, .5, (.5, .4, .3), (.02, .98, .5), 2, None), 'tiny': (3, .4, (.4, .3, .2), (.3, .7, .2), 3, None),
    'one': (1, .4, (.4, .3, .2), (.6, .1, .2), 4, None), 'mid': (40, 1.1, (.9, .5, .5), (.99, .99, .99), 5, (1., .4, .2)), 'small': (12, .3, (.3, .2, .2), (.1, .5, .9), 6, R),
    'pile': (25, .5, (0., 0., 0.), (.8, .2, .4), 7, R), 'wide': (60, .9, (1.2, .6, .3), (.4, .1, .8), 8, (.2, .2, 1.))}
SETS = [('big', 'tiny'), ('small', 'big'), ('big', 'edge', 'mid'), ('tiny', 'big', 'small'), ('one', 'big', 'tiny', 'mid'), ('small', 'edge', 'pile', 'wide'), ('wide', 'one', 'small', 'tiny'), ('mid', 'pile', 'big', 'edge')]
UN = ('int', 'a', 'b', 'c', 'd')


def explore(X):
    import cosmic_profiles as cp
    alone = {}

    def catalogue(u, names, how, order, strays, share):
        cat = worlds.make(u, [OBJ[k] for k in names], how=how, order=order, strays=strays)
        # two objects may share particles: the second also lists the first particles of the first
        idx = [list(o) for o in cat.idx_in]
        if share and len(idx) > 1:
            idx[1] = idx[1] + idx[0][:min(4, len(idx[0]))]
        # masses belong to the particle of the object, not to the place it is stored at
        m = np.full(len(cat.m_in), .5)
        for k, o in enumerate(cat.idx_in):
            m[o] = .01 * (1 + ((5 * np.arange(len(o)) + ord(names[k][0])) % 7) / 5.)
        return rm.Cat(cat.xyz_in, m / u.min, idx, cat.r200_in, cat.L_in, u, 1, how)

    def isolated(u, un, cat, names, o, how, share):
        key = (un, names[o], how, (names[0] if share and o == 1 else None))
        if key not in alone:
            i = cat.idx_in[o]
            one = rm.Cat(cat.xyz_in[i], cat.m_in[i], [list(range(len(i)))], cat.r200_in[o:o + 1], cat.L_in, u, 1, how)
            ob = worlds.build(cp, one, X.scratch)
            alone[key] = {k: f(ob, [0]) for k, f in Q.ROWS.items()}
            X.step(len(Q.ROWS))
        return alone[key]

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        names = c['names']
        cat = catalogue(u, names, c['how'], c['order'], c['strays'], c['share'])
        obj = worlds.build(cp, cat, X.scratch)
        n = len(names)
        X.state(tuple(sorted((k, str(v)) for k, v in c.items())))
        sels = [s for k in range(1, n + 1) for s in itertools.permutations(range(n), k)]
        if c.get('few'):
            sels = [s for j, s in enumerate(sels) if len(s) in (1, n) and j % 3 != 1 or j % 7 == 0]
        for sel in sels:
            for name, f in Q.ROWS.items():
                got = np.asarray(f(obj, list(sel) if len(sel) % 2 else np.array(sel)))
                X.step()
                if len(got) != len(sel):
                    raise Violation("%s: %d rows for the selection %s" % (name, len(got), sel))
                for i, o in enumerate(sel):
                    ref = np.asarray(isolated(u, c['units'], cat, names, o, c['how'], c['share'])[name])
                    if not Q.close_rows(got[i:i + 1], ref, 1e-7, cat.L * u.lout):
                        raise Violation("%s of object %d (%s) in the selection %s of %s:\n%s\nalone:\n%s" % (name, o, names[o], sel, names, got[i], ref[0]))
                    X.ok()
            X.outcome(c['names'], sel)

    cs = []
    for si, s in enumerate(SETS):
        for pi, p in enumerate(itertools.permutations(s)):
            for how in ('com', 'mode'):
                for oi, order in enumerate(('inter', 'block', 'rev')):
                    for share in (False, True):
                        k = len(cs)
                        cs.append(dict(names=p, how=how, order=order, share=share, strays=(0, 3, 17)[(k + oi) % 3], units=UN[(si + pi) % 5], few=X.quick and len(s) > 2))
    if X.quick:
        cs = [c for k, c in enumerate(cs) if len(c['names']) < 4 or k % 12 in (0, 7)]
    X.bounds.update(objects=4, selections='all ordered selections' if not X.quick else 'singles, full permutations and every 7th')
    X.each(cs, fn)

    # fits: every object's row depends on its own profile only
    def fits(c):
        u = worlds.set_units(cp, c['units'])
        cat = worlds.make(u, [OBJ[k] for k in c['names']])
        obj = worlds.build(cp, cat, X.scratch)
        n = len(c['names'])
        P = Q.prof(n) * u.dout
        if c['bad'] is not None:
            P[c['bad']] = {'nan': np.nan, 'zero': 0., 'part': np.where(np.arange(len(Q.RF)) % 3 == 1, np.nan, P[c['bad']])}[c['how']]
        m = dict(Q.NFW if c['model'] == 'nfw' else Q.EIN)
        ref = {o: (obj.fitDensProfs(P[o:o + 1], Q.RF, m, [o]), obj.estConcentrations(P[o:o + 1], Q.RF, m, [o])) for o in range(n)}
        X.step(2 * n)
        for sel in [s for k in range(1, n + 1) for s in itertools.permutations(range(n), k)]:
            f, q = obj.fitDensProfs(P[list(sel)], Q.RF, m, list(sel)), obj.estConcentrations(P[list(sel)], Q.RF, m, list(sel))
            X.step(2)
            for i, o in enumerate(sel):
                if not Q.close_rows(f[i:i + 1], ref[o][0], 1e-7) or not Q.same(np.asarray(q[i:i + 1]), np.asarray(ref[o][1]), 1e-7):
                    raise Violation("fit of object %d in the selection %s: %s %s, alone %s %s" % (o, sel, f[i], q[i], ref[o][0], ref[o][1]))
                X.ok()
            X.state('fits', str(c), sel)
    X.each([dict(names=s, model=mo, bad=b, how=h, units=UN[k % 5]) for k, s in enumerate(SETS[:2] + SETS[3:4] + ([] if X.quick else SETS[4:6])) for mo in ('nfw', 'einasto')
            for b, h in [(None, '')] + [(i, h) for i in range(len(s)) for h in ('nan', 'zero', 'part')]], fits, group='fits')
