"""C16 snapshot reading: all layouts of small snapshots, every block and set of types, against the written data."""
import os, shutil, itertools
import numpy as np
import worlds, gadgetgen as gg
from mc import Violation

META = {"assumptions": ["particle types that no file of the snapshot holds are requested together with types that exist only"]}
LAYOUTS = [('hdf5', 0, False)] + [('bin', f, s) for f in (1, 2) for s in (False, True)]
NAMES = {'POS ': 'pos', 'VEL ': 'vel', 'MASS': 'mass', 'ID  ': 'ids'}


def explore(X):
    import cosmic_profiles as cp
    from cosmic_profiles.gadget import readgadget, readsnap
    cnt = [0]

    def data(types, pops, dt, idt, un):
        """pops: list over files of tuples (count per type in `types`)"""
        u = worlds.UNITS[un]
        g = np.random.default_rng(17)
        files, nid = [], 0
        for f in pops:
            p = {}
            for t, n in zip(types, f):
                if n:
                    ids = np.arange(nid, nid + n)
                    ids = (ids + 7 if idt == np.uint32 else ids.astype(np.uint64) * 3 + 2 ** 60 + 1)
                    if idt == np.uint32:
                        ids = ids.astype(np.uint32) + np.uint32(3 * 10 ** 9)
                    nid += n
                    p[t] = dict(pos=g.uniform(0, 10, (n, 3)).astype(dt), vel=g.normal(size=(n, 3)).astype(dt) * 100, mass=g.uniform(1, 2, n).astype(dt), ids=ids)
            files.append(p)
        return files

    def run(types, pops, layout, dt, idt, masstypes, un, time, ask=None, d=None):
        kind, fmt, swap = layout
        files = data(types, pops, dt, idt, un)
        marr = [0.] * 6
        for t in masstypes:
            marr[t] = 2.5 + t
        cnt[0] += 1
        d = d or os.path.join(X.scratch, 'r%d' % cnt[0])
        os.makedirs(d)
        z = 1 / time - 1
        base = gg.write_snapshot(d + '/snap_007', files, marr, kind=kind, dt=dt, idt=idt, box=7.625, time=time, z=z, **({} if kind == 'hdf5' else dict(fmt=fmt, swap=swap)))
        u = worlds.set_units(cp, un)
        fac = {'POS ': u.lin, 'VEL ': np.sqrt(time), 'MASS': u.min, 'ID  ': 1}
        nall = [sum(f[types.index(t)] for f in pops) if t in types else 0 for t in range(6)]
        try:
            h = readgadget.header(base)
            X.step()
            for name, got, exp in (('time', h.time, time), ('redshift', h.redshift, z), ('boxsize', h.boxsize, 7.625), ('number of files', h.filenum, len(pops)), ('omega_m', h.omega_m, .3),
                                   ('Hubble', h.Hubble, 100. * np.sqrt(.3 * (1. + z) ** 3 + .7)), ('omega_l', h.omega_l, .7), ('h', h.hubble, .7), ('mass table', list(h.massarr), marr), ('nall', list(h.nall), nall),
                                   ('npart', list(h.npart), [len(files[0][t]['ids']) if t in files[0] else 0 for t in range(6)])):
                if not np.allclose(got, exp, rtol=1e-14, atol=0):
                    raise Violation("header: %s = %s, written %s" % (name, got, exp))
            present = [t for t in types if nall[t]]
            sets = ask or [s for n in range(1, len(types) + 1) for s in itertools.permutations(types, n) if any(nall[t] for t in s)]
            for s in sets:
                for b in NAMES:
                    exp = []
                    for t in s:
                        for p in files:
                            if t in p:
                                exp.append(np.full(len(p[t]['ids']), marr[t]) if b == 'MASS' and marr[t] else np.asarray(p[t][NAMES[b]]))
                    exp = np.concatenate(exp)
                    got = np.asarray(readgadget.read_block(base, b, list(s)))
                    X.step()
                    if b == 'ID  ':
                        ok = got.shape == exp.shape and all(int(a) == int(e) for a, e in zip(got, exp))
                    else:
                        exp = exp.astype(float) * fac[b]
                        ok = got.shape == exp.shape and np.allclose(got, exp, rtol=3e-7 if dt == 'f4' else 1e-12, atol=0)
                    if not ok:
                        raise Violation("block %r of types %s: %s, written %s" % (b, s, got[:4], exp[:4]))
                    X.ok()
                    X.outcome(b, tuple(exp.ravel()[:3]), len(exp))
            # all types at once, as the binary files hold them
            for b in NAMES if kind != 'hdf5' else ():
                if any(not p or b == 'MASS' and all(marr[t] for t in p) for p in files):
                    continue                                        # a file without this block
                exp = [np.full(len(p[t]['ids']), marr[t]) if b == 'MASS' and marr[t] else np.asarray(p[t][NAMES[b]]) for t in sorted(types) for p in files if t in p]
                exp = np.concatenate(exp).astype(float if b != 'ID  ' else None) * (np.sqrt(time) if b == 'VEL ' else 1 if b != 'ID  ' else exp[0].dtype.type(1))
                got = np.asarray(readsnap.read_block(base, b))
                X.step()
                if not (got.shape == exp.shape and (np.array_equal(got, exp) if b == 'ID  ' else np.allclose(got, exp, rtol=3e-7 if dt == 'f4' else 1e-12, atol=0))):
                    raise Violation("block %r of all types: %s, written %s" % (b, got[:4], exp[:4]))
                X.ok()
            # the files of the snapshot one by one
            for i, p in enumerate(files):
                name = base + ('.%d' % i if len(files) > 1 else '') + ('.hdf5' if kind == 'hdf5' and (len(files) > 1 or i % 2) else '')
                for t in types:
                    if t not in p:
                        continue
                    for b in NAMES:
                        exp = np.full(len(p[t]['ids']), marr[t]) if b == 'MASS' and marr[t] else np.asarray(p[t][NAMES[b]])
                        got = np.asarray(readgadget.read_field(name, b, t))
                        X.step()
                        if b == 'ID  ':
                            ok = got.shape == exp.shape and all(int(a) == int(e) for a, e in zip(got, exp))
                        else:
                            exp = exp.astype(float) * fac[b]
                            ok = got.shape == exp.shape and np.allclose(got, exp, rtol=3e-7 if dt == 'f4' else 1e-12, atol=0)
                        if not ok:
                            raise Violation("file %d, block %r of type %s: %s, written %s" % (i, b, t, got[:4], exp[:4]))
                        X.ok()
        finally:
            shutil.rmtree(d)
        X.state(types, pops, layout, dt, str(idt), masstypes, un)

    def fn(c):
        types, pops = tuple(c['types']), [tuple(p) for p in c['pops']]
        k = c['k']
        full = c.get('full')
        some = [t for i, t in enumerate(types) if any(p[i] for p in pops)]
        for li, layout in enumerate(LAYOUTS):
            for dt in ('f8', 'f4'):
                for idt in (np.uint32, np.uint64):
                    msets = [m for n in range(len(types) + 1) for m in itertools.combinations(types, n)]
                    for mi, m in enumerate(msets):
                        j = k + 5 * li + 3 * mi + (dt == 'f4') + 2 * (idt == np.uint64)
                        if not full and j % c['thin']:
                            continue
                        asks = [s for n in range(1, len(types) + 1) for s in itertools.permutations(types, n) if set(s) & set(some)]
                        asks = [s for i, s in enumerate(asks) if (i + j) % 3 == 0 or len(s) == 1]
                        run(types, pops, layout, dt, idt, m, ('int', 'a', 'b', 'c')[j // 2 % 4], (1., .25)[j // 3 % 2], asks)

    T = (0, 1, 4)
    one = [(p,) for p in itertools.product((0, 1, 3), repeat=3) if any(p)]
    two = [p for p in itertools.product(itertools.product((0, 2), repeat=3), repeat=2) if any(p[0]) or any(p[1])]
    three = [p for p in itertools.product(itertools.product((0, 2), repeat=3), repeat=3) if any(map(any, p))]
    cs = [dict(types=T, pops=p, k=k, full=True) for k, p in enumerate(one)]
    cs += [dict(types=T, pops=p, k=k, thin=9 if X.quick else 1) for k, p in enumerate(two)]
    cs += [dict(types=T, pops=p, k=k, thin=70 if X.quick else 5) for k, p in enumerate(three)]
    cs += [dict(types=(1, 2, 3, 5), pops=p, k=k, thin=40 if X.quick else 8) for k, p in enumerate([((1, 2, 0, 3),), ((0, 0, 1, 1), (2, 1, 0, 1)), ((1, 1, 1, 1), (1, 0, 0, 0), (0, 2, 2, 0))])]
    cs += [dict(types=(0, 1), pops=tuple((1 + i % 2, 2) for i in range(n)), k=n, thin=7) for n in (11, 12)]
    X.bounds.update(files=3, types=6, layouts=len(LAYOUTS))
    X.each(cs, fn)

    # a snapshot that takes another one's place between two readings in one process
    def rewritten(c):
        d = os.path.join(X.scratch, 'w%d' % c['n'])
        for s in c['snaps']:
            s = S[s]
            run((0, 1), s[0], LAYOUTS[s[1]], s[2], np.uint32, s[3], s[4], s[5], [(0,), (1,), (1, 0)], d)
    S = [([(2, 3)], 0, 'f8', (), 'b', 1.), ([(3, 2)], 0, 'f8', (), 'b', .731), ([(2, 3)], 0, 'f8', (1,), 'int', .25), ([(1, 2), (1, 1)], 1 % len(LAYOUTS), 'f4', (0,), 'a', .731),
         ([(2, 3)], len(LAYOUTS) - 1, 'f8', (), 'b', .5), ([(1, 1), (1, 1), (0, 1)], len(LAYOUTS) // 2, 'f8', (), 'c', .0909)]
    X.each([dict(snaps=q, n=k) for n in ((2,) if X.quick else (2, 3)) for k, q in enumerate(itertools.product(range(len(S)), repeat=n))], rewritten, group='rewritten')

    # more particles than narrow counters hold
    def large(c):
        run((0, 1), [tuple(p) for p in c['pops']], LAYOUTS[c['layout']], c['dt'], (np.uint32, np.uint64)[c['idt']], tuple(c['m']), 'b', .25, [(1,), (1, 0)])
    X.each([dict(pops=p, layout=k, dt=('f8', 'f4')[(k + i) % 2], idt=(k // 2 + i) % 2, m=((), (1,), (0,))[(k + i) % 3]) for k in range(len(LAYOUTS)) for i, p in enumerate(([(40000, 70000)], [(33000, 30000), (5, 40000)]))], large, group='large')
