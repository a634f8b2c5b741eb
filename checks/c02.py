"""C02 purity: every history of public queries, rejected calls, constructions and unit excursions over several live objects, each answer against that of a fresh process."""
import time, itertools, os, pickle, shutil, sys
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from dumps import HALOS, HALOS2
from mc import Violation, HarnessError

META = {"assumptions": ["results that were handed out are not written to by the caller", "settings and data on disk are the same at the time of both queries"]}
ARR = [(34, .9, (.8, .6, .4), (.3, .6, .5), 1, (.3, .2, .1)), (21, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (12, .5, (.5, .4, .3), (.7, .8, .9), 3, None), (3, .5, (.5, .4, .3), (.1, .8, .2), 3, None)]
SEL = {'all': [0, 1, 2], 'rev': [2, 0], 'one': [1]}
OBJS = ('G', 'G2', 'V', 'A', 'M')          # Gadget dm, Gadget stars, the same files with the other radius, arrays, arrays with the mode centre


def explore(X):
    import cosmic_profiles as cp
    os.chdir(X.scratch)
    u = worlds.set_units(cp, 'a')
    keep = os.path.join(X.scratch, 'keep')
    os.makedirs(keep, exist_ok=True)
    W = {'G': gworld.make(keep, u, HALOS, 'dm', keep=True, tag='g'), 'G2': gworld.make(keep, u, HALOS2 + HALOS[:1], 'stars', keep=True, tag='s', how='mode')}
    W['V'] = W['G']
    A = worlds.make(u, ARR, min_ptcs=5)
    inputs = {}
    # twins: catalogues that differ from A, and snapshots that differ from G, in one ingredient only
    W['Gvel'] = gworld.make(keep, u, HALOS, 'dm', keep=True, tag='w', velfn=lambda N: np.random.default_rng(8).normal(size=(N, 3)) * [40., 90., 60.])
    W['Gmass'] = gworld.make(keep, u, HALOS, 'dm', keep=True, tag='x', massarr=True)

    def twin(kind):
        x, m, idx, r, L, mn, how = A.xyz_in.copy(), A.m_in.copy(), [list(o) for o in A.idx_in], A.r200_in.copy(), A.L_in, 5, 'com'
        o = idx[0]
        if kind == 'inner':                             # one particle in the middle of an object moves to where another one is
            x[o[len(o) // 2]] = x[o[len(o) // 3]]
        elif kind == 'masses':                          # two masses are exchanged
            a, b = sorted(o[1:-1], key=lambda i: m[i])[::len(o) - 3]
            m[[a, b]] = m[[b, a]]
        elif kind == 'heavy':
            m *= 2
        elif kind == 'radius':
            r[1] *= 1.3
        elif kind == 'open':
            L = 0.
        elif kind == 'box':
            L = 1.25 * L
        elif kind == 'members':                         # two objects exchange a particle
            idx[0][5], idx[1][5] = idx[1][5], idx[0][5]
        elif kind == 'order':
            idx[0], idx[1] = idx[1], idx[0]
            r[[0, 1]] = r[[1, 0]]
        elif kind == 'min':
            mn = 3
        elif kind == 'mode':
            how = 'mode'
        return x, m, idx, r, L, mn, how
    TWINS = ('same', 'inner', 'masses', 'heavy', 'radius', 'open', 'box', 'members', 'order', 'min', 'mode')

    def build(name):
        """a new object and the caller's arrays it was given"""
        if name in TWINS:
            viz, cat = os.path.join(X.scratch, 'viz'), os.path.join(X.scratch, 'cat')
            x, m, idx, r, L, mn, how = twin(name)
            return cp.DensShapeProfs(x, m, idx, r, L, '001', viz, cat, MIN_NUMBER_PTCS=mn, CENTER=how), [x, m, idx, r]
        viz, cat = os.path.join(X.scratch, 'viz'), os.path.join(X.scratch, 'cat')
        if name in W:
            w = W[name]
            return cp.DensShapeProfsGadget(w[1], w[2], 'stars' if name == 'G2' else 'dm', '099', viz, cat, RVIR_OR_R200='R200' if name == 'V' else 'Rvir', MIN_NUMBER_PTCS=5, CENTER=w[0].how), ()
        a = [A.xyz_in.copy(), A.m_in.copy(), [list(o) for o in A.idx_in], A.r200_in.copy()]
        return cp.DensShapeProfs(a[0], a[1], a[2], a[3], A.L_in, '001', viz, cat, MIN_NUMBER_PTCS=5, CENTER='com' if name == 'A' else 'mode'), a

    def freeze(a):
        if isinstance(a, dict):
            return tuple((k, freeze(v)) for k, v in sorted(a.items()))
        if isinstance(a, (list, tuple)):
            return tuple(freeze(x) for x in a)
        return (a.dtype.str, a.shape, a.tobytes()) if isinstance(a, np.ndarray) else a

    FRAC = {'lin': worlds.katz(np.linspace(.2, 1., 4), 1e-2, 60, 5)}
    Rb = np.linspace(.2, 1.1, 5)
    OPS = dict(Q.ROWS)
    OPS.update(Q.FITS)
    OPS['sphb'] = lambda o, s: o.estDensProfs(Rb, s)
    OPS['fitP'] = lambda o, s: o.fitDensProfs(Q.prof(len(s), start=3), Q.RF, {'profile': 'alpha_beta_gamma', 'gamma': 1., 'beta': 3., 'min_method': 'L-BFGS-B'}, s)
    OPS['localF'] = lambda o, s: o.getShapeCatLocal(s, katz_config=FRAC['lin'])
    VOPS = dict(Q.VEL)
    # the same query with one setting changed
    KV = {'': Q.KZ, 'tol': dict(Q.KZ, IT_TOL=.3), 'wall': dict(Q.KZ, IT_WALL=2), 'imin': dict(Q.KZ, IT_MIN=14), 'red': dict(Q.KZ, REDUCED=True), 'shell': dict(Q.KZ, SHELL_BASED=True), 'rad': dict(Q.KZ, ROverR200=[.4, .75, 1., 1.3]), 'len': dict(Q.KZ, ROverR200=[.4, .7, 1.])}
    RV = {'': Q.R6, 'rad': np.hstack((Q.R6[:3], Q.R6[3] * 1.05, Q.R6[4:])), 'len': Q.R6[:5]}
    prof2 = lambda n: Q.prof(n) * np.where(np.arange(len(Q.RF)) == 5, 1.4, 1.)
    FV = {'': Q.EIN, 'alpha': dict(Q.EIN, alpha=.3), 'free': {k: v for k, v in Q.EIN.items() if k != 'alpha'}, 'min': dict(Q.EIN, min_method='L-BFGS-B'), 'rs': dict(Q.EIN, r_s=.15)}
    NEAR = {'local': {'local.' + k: (lambda o, s, v=v: o.getShapeCatLocal(s, katz_config=v)) for k, v in KV.items()},
            'global': {'global.' + k: (lambda o, s, v=v: o.getShapeCatGlobal(s, katz_config=v)) for k, v in KV.items() if k not in ('shell', 'rad', 'len')},
            'ell': {'ell.' + k: (lambda o, s, v=v: o.estDensProfs(Q.R6, s, spherical=False, katz_config=v)) for k, v in KV.items()},
            'sph': {'sph.' + k: (lambda o, s, v=v: o.estDensProfs(v, s)) for k, v in RV.items()},
            'kernel': {'kernel.' + k: (lambda o, s, v=v: o.estDensProfs(v, s, direct_binning=False)) for k, v in RV.items()},
            'conc': {**{'conc.' + k: (lambda o, s, v=v: o.estConcentrations(Q.prof(len(s)), Q.RF, v, s)) for k, v in FV.items()},
                     'conc.prof': lambda o, s: o.estConcentrations(prof2(len(s)), Q.RF, Q.EIN, s), 'conc.rad': lambda o, s: o.estConcentrations(Q.prof(len(s)), Q.RF * np.where(np.arange(len(Q.RF)) == 5, 1.05, 1.), Q.EIN, s)},
            'fit': {**{'fit.' + k: (lambda o, s, v=v: o.fitDensProfs(Q.prof(len(s)), Q.RF, v, s)) for k, v in FV.items()}, 'fit.prof': lambda o, s: o.fitDensProfs(prof2(len(s)), Q.RF, Q.EIN, s)}}
    NOPS = {k: v for d in NEAR.values() for k, v in d.items()}

    # operations that answer nothing themselves
    def bad(o, s):
        n = 0
        for f in (lambda: o.estDensProfs(Q.R6, [99]), lambda: o.getShapeCatLocal(s, katz_config=dict(Q.KZ, IT_TOL=-1)), lambda: o.fitDensProfs(Q.prof(5), Q.RF, Q.NFW, s),
                  lambda: o.fitDensProfs(Q.prof(len(s)), Q.RF, {'profile': 'isothermal', 'min_method': 'Powell'}, s), lambda: o.estDensProfs(Q.R6, s, direct_binning=True, spherical=False, katz_config=3)):
            try:
                f()
            except Exception:
                n += 1
        return None

    def units(o, s):
        worlds.set_units(cp, 'b')
        o.getMassesCenters(s)
        worlds.set_units(cp, 'a')

    def other(o, s):
        c = worlds.make(u, ARR[::-1], min_ptcs=3, shift=(1., 2., 3.))
        p = worlds.build(cp, c, X.scratch, snap='002', viz='viz2', catd='cat2')
        p.getMassesCenters([0, 1]); p.getShapeCatGlobal([1], katz_config=Q.KZ); p.estDensProfs(Q.R6, [0])

    def reread(o, s):
        for n in ('G', 'V', 'G2'):
            build(n)[0].getMassesCenters([0])
    SIDE = dict(Q.PLOTS, bad=bad, units=units, other=other, reread=reread)
    ARGS = {'R6': Q.R6, 'RF': Q.RF, 'KZ': Q.KZ, 'KS': Q.KS, 'NFW': Q.NFW, 'EIN': Q.EIN, 'Rb': Rb, 'lin': FRAC}

    def call(objs, op):
        name, f, s = op
        sel = SEL[s] if s != 'raw' else list(SEL['all'])
        fn = OPS.get(f) or VOPS.get(f) or NOPS.get(f) or SIDE[f]
        sel0 = list(sel)
        r = fn(objs[name], sel)
        X.step()
        if sel != sel0:
            raise Violation("%s changed the caller's selection %s to %s" % (op, sel0, sel))
        return r

    fresh = {}

    def fresh_of(op):
        """the answer in a process in which nothing else happened"""
        if op not in fresh:
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as h:
                        pickle.dump(np.array(call({op[0]: build(op[0])[0]}, op)), h)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as h:
                d = h.read()
            os.waitpid(pid, 0)
            if not d:
                raise Violation("%s fails on a fresh object" % (op,))
            fresh[op] = pickle.loads(d)
        return fresh[op]

    rows = [(n, f, s) for n in OBJS for f in OPS for s in SEL] + [(n, f, s) for n in ('G', 'G2', 'V') for f in VOPS for s in SEL]
    side = [(n, f, 'all') for n in OBJS for f in SIDE]
    TOPS = ('masses', 'sph', 'kernel', 'ell', 'local', 'globalR', 'conc')
    twins = [(n, f, 'all') for n in TWINS for f in TOPS]
    gtwins = [(n, f, 'all') for n in ('Gvel', 'Gmass') for f in ('masses', 'sph', 'vlocal', 'vglobal')]
    near = [('A', f, 'all') for f in NOPS]
    bads = []
    for op in rows + twins + gtwins + near:                                    # before any query runs in this process
        try:
            fresh_of(op)
        except Violation as e:
            bads.append(str(e))

    X.count('baseline_seconds', int(time.time() - X.t0))

    def probe(c):
        if c['n'] < len(bads):
            raise Violation(bads[c['n']])
        X.ok(len(rows))

    def clear():
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('cosmic_profiles'):
                for v in list(vars(m).values()):
                    if callable(getattr(v, 'cache_clear', None)):
                        v.cache_clear()

    def run(ops):
        clear()
        shutil.rmtree(os.path.join(X.scratch, 'cat'), ignore_errors=True)
        objs, given, before = {}, {}, {}
        for n, _, _ in ops:
            if n not in objs:
                objs[n], given[n] = build(n)
                before[n] = freeze(list(given[n]))
        b = freeze(ARGS)
        held = []
        for k, op in enumerate(ops):
            try:
                r = call(objs, op)
            except Violation:
                raise
            except Exception as e:
                raise Violation("history %s: call %d fails with %s: %s" % (ops, k, type(e).__name__, e))
            if op[1] in SIDE:
                continue
            held.append((op, r))
            for j, (o, v) in enumerate(held):
                f = fresh[o]
                if not Q.close_rows(np.asarray(v), f, 1e-9, 1e3):
                    raise Violation("history %s: answer %s of %s is %s, on a fresh object %s" % (ops[:k + 1], 'handed out earlier' if j < len(held) - 1 else k, o, v, f))
                X.ok()
        for n in objs:
            if freeze(list(given[n])) != before[n]:
                raise Violation("history %s changed the caller's input arrays of %s" % (ops, n))
        if freeze(ARGS) != b:
            raise Violation("history %s changed the caller's arguments %s" % (ops, [k for k in ARGS]))
        X.state(tuple(ops))
        for o, v in held[-1:]:
            X.outcome(o, np.asarray(v).tobytes())

    def fn(c):
        head = [tuple(o) for o in c['head']]
        for tail in itertools.product(*c['tails']):
            run(head + [tuple(t) for t in tail])

    X.each([dict(n=k) for k in range(max(1, len(bads)))], probe, group='single queries')
    allops = rows + side
    # all pairs on one object, all pairs over two objects (with the second object's answers), and triples over a smaller alphabet
    pairs = []
    for a in allops:
        same = [o for o in rows if o[0] == a[0]]
        cross = [o for o in rows if o[0] != a[0] and (not X.quick or o[2] == 'rev')]
        if X.quick and a[2] != 'all' and a[0] not in ('G', 'A'):
            continue
        if X.quick and a[1] in Q.PLOTS:                # drawing is slow: one long history per plot and direction
            if a[0] in ('G', 'M'):
                probes = same[::2] + [o for o in cross if len(o[1]) % 3 == 0]
                pairs.append(dict(head=[a] + probes, tails=[]))
                pairs.append(dict(head=[a] + probes[::-1], tails=[]))
            continue
        pairs.append(dict(head=[a], tails=[[o for o in same if not X.quick or a[1] in OPS or o[2] != 'one']]))
        if not X.quick or (a[2] == 'all' and a[1] not in Q.PLOTS):
            pairs.append(dict(head=[a], tails=[cross if not X.quick else cross[len(a[1]) % 2::2]]))
    X.each(pairs, fn, group='pairs')
    # all pairs of twins and of settings, in either order, and back again
    tw = []
    for f in TOPS:
        for a in TWINS:
            tw.append(dict(head=[(a, f, 'all')], tails=[[(b, f, 'all') for b in TWINS if b != a], [(a, f, 'all')]]))
    for f in ('masses', 'sph', 'vlocal', 'vglobal'):
        for a, b in itertools.permutations(('G', 'Gvel', 'Gmass'), 2):
            tw.append(dict(head=[(a, f, 'all'), (b, f, 'all'), (a, f, 'all')], tails=[]))
    for d in NEAR.values():
        for a in d:
            tw.append(dict(head=[('A', a, 'all')], tails=[[('A', b, 'all') for b in d if b != a], [('A', a, 'all')]]))
    X.bounds.update(twins=len(TWINS), settings=len(NOPS))
    X.each(tw, fn, group='twins')
    small = ['masses', 'sph', 'ell', 'local', 'globalR', 'conc'] if X.quick else list(OPS)
    sm = lambda n: [(n, f, s) for f in small for s in (('all', 'rev') if not X.quick else ('rev' if f in ('local', 'masses') else 'all',))]
    tri = []
    for n in (('G', 'A') if X.quick else OBJS):
        for a in sm(n) + ([] if X.quick else [(n, f, 'all') for f in ('bad', 'units', 'other', 'reread')]):
            for b in sm(n):
                tri.append(dict(head=[a, b], tails=[sm(n)]))
    X.each(tri, fn, group='triples')
    X.bounds.update(objects=len(OBJS), alphabet=len(allops), depth=3)
