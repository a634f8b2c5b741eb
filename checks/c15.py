"""C15 FoF/SUBFIND tables: all small tables x all splits over files, against a reference reading of the documented rule."""
import os, re, io, contextlib, shutil, itertools, time
import numpy as np
import worlds, gworld, big, gadgetgen as gg
from mc import Violation

META = {"assumptions": ["a catalogue without any admissible object is left open"]}
MIN = 3
# (nsubs, central length, rest): central subhalo below / at / above the minimum; the further subhalo alone would pass
HALOS = [(0, 0, 0), (0, 0, 4), (1, 2, 0), (1, 2, 3), (1, 3, 0), (1, 3, 2), (1, 5, 0), (1, 5, 1), (2, 2, 4), (2, 3, 4), (2, 4, 5), (3, 4, 6)]
PT = {'gas': 0, 'dm': 1, 'stars': 4}


def compositions(n, k):
    """all non-decreasing cut lists of 0..n into k parts"""
    return [(0,) + c + (n,) for c in itertools.combinations_with_replacement(range(n + 1), k - 1)]


def explore(X):
    import cosmic_profiles as cp
    snaps, cnt = {}, [0]

    def snapshot(un, u):
        if un not in snaps:
            rng = np.random.default_rng(5)
            parts = {t: dict(pos=rng.uniform(0, 10, (130, 3)) / u.lin, vel=rng.normal(size=(130, 3)), ids=np.arange(130), mass=(1 + .01 * np.arange(130) + t) / u.min) for t in (0, 1, 4)}
            os.makedirs(os.path.join(X.scratch, 's' + un), exist_ok=True)
            snaps[un] = (gg.write_snapshot(os.path.join(X.scratch, 's' + un, 'snap_099'), [parts], [0.] * 6, box=10. / u.lin), parts)
        return snaps[un]

    def run(halos, cuts, scuts, otype, rdef, un, minp=MIN, grp=None):
        u = worlds.set_units(cp, un)
        base, parts = snapshot(un, u)
        t = PT[otype]
        gl = [[(c + r if k == t else 1 + (7 * i + 3 * k) % 5) for k in range(6)] for i, (n, c, r) in enumerate(halos)]
        sl, off = [], 0
        for i, (n, c, r) in enumerate(halos):
            left = r
            for s in range(n):
                w = c if s == 0 else left // 2 + left % 2
                left -= w if s else 0
                sl.append([(w if k == t else (i + s + k) % 4) for k in range(6)])
        rv = np.array([.31 + .1 * i if h[0] else 0. for i, h in enumerate(halos)])
        rm_ = rv * 1.5
        files = []
        for k in range(len(cuts) - 1):
            a, b = cuts[k], cuts[k + 1]
            d = {}
            if b > a:
                d.update(group_len=np.array(gl)[a:b], nsubs=[h[0] for h in halos[a:b]], rvir=rv[a:b] / u.lin, r200=rm_[a:b] / u.lin)
            if scuts[k + 1] > scuts[k]:
                d['sh_len'] = np.array(sl)[scuts[k]:scuts[k + 1]]
            files.append(d)
        cnt[0] += 1
        grp = grp or os.path.join(X.scratch, 'g%d' % cnt[0])
        gg.write_fof(grp, files)
        exp, er, start = [], [], 0
        for i, (n, c, r) in enumerate(halos):
            if n > 0 and c >= minp:
                exp.append(list(range(start, start + c)))
                er.append((rv if rdef == 'Rvir' else rm_)[i])
            start += c + r
        try:
            o = cp.DensShapeProfsGadget(base, grp, otype, '099', X.scratch + '/viz', X.scratch + '/cat', RVIR_OR_R200=rdef, MIN_NUMBER_PTCS=minp, CENTER='com')
            X.step()
            idx, size = o.getIdxCat()
            r200 = o.getR200()
            if [len(e) for e in exp] != list(size) or [p for e in exp for p in e] != list(idx):
                raise Violation("objects %s of sizes %s, expected %s" % (list(idx), list(size), exp))
            if not np.allclose(r200, np.array(er) * u.lout, rtol=3e-7):
                raise Violation("radii %s, expected %s" % (r200, np.array(er) * u.lout))
            mc_ = o.getMassesCenters(list(range(len(exp))))
            m = [parts[t]['mass'][e].sum() * u.min * u.mout for e in exp]
            if not np.allclose(mc_['mass'], m, rtol=1e-6):
                raise Violation("masses %s, expected %s" % (mc_['mass'], m))
            # the printed information: halos with and without subhalos, halos, subhalos, objects (lines that are worded otherwise are left out)
            ns = [h[0] for h in halos]
            for q in (o.getObjInfo, o.getObjInfoGadget):
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    q()
                X.step()
                for line in b.getvalue().splitlines():
                    for rx, n in ((r'objects with > 0 SHs is (\d+)', sum(k > 0 for k in ns)), (r'total number of objects is (\d+)', len(ns)), (r'number of SHs \(subhalos\) is (\d+)', sum(ns)),
                                  (r'objects that have no SH is (\d+)', sum(k == 0 for k in ns)), (r'sufficient resolution(?: is|:) (\d+)', len(exp))):
                        t_ = re.search(rx, line)
                        if t_ and int(t_[1]) != n:
                            raise Violation("%s prints %r, the number is %d" % (q.__name__, line, n))
                        X.count('printed numbers', int(bool(t_)))
        finally:
            shutil.rmtree(grp)
        X.ok()
        X.state(halos, cuts, scuts, otype, rdef)
        X.outcome(tuple(map(tuple, exp)))

    def fn(c):
        halos = [HALOS[k] for k in c['halos']]
        if not any(h[0] > 0 and h[1] >= MIN for h in halos):
            X.count('no_object')
            return
        n, ns = len(halos), sum(h[0] for h in halos)
        k = 0
        for nf in c['files']:
            for cuts in compositions(n, nf):
                sc = compositions(ns, nf)
                if len(sc) > c['smax']:                       # subhalo cuts: an evenly spaced part, always with the extremes
                    sc = sorted(set(sc[i * (len(sc) - 1) // (c['smax'] - 1)] for i in range(c['smax'])))
                for scuts in sc:
                    k += 1
                    j = k + c['k']
                    run(halos, cuts, scuts, ('dm', 'gas', 'stars')[j % 3], ('Rvir', 'R200')[j // 3 % 2], ('int', 'a', 'b', 'c')[j // 6 % 4], (MIN, 1, MIN, 4, MIN)[j % 5] if c.get('mins') else MIN)

    R = range(len(HALOS))
    cs = [dict(halos=h, files=(1, 2, 3), smax=4, k=k) for n in (1, 2) for k, h in enumerate(itertools.product(R, repeat=n))]
    cs += [dict(halos=h, files=(1, 2, 3), smax=3 if X.quick else 4, k=k) for k, h in enumerate(itertools.product(R if not X.quick else (1, 3, 5, 9), repeat=3))]
    four = list(itertools.product((1, 3, 5, 9) if X.quick else (0, 1, 3, 5, 7, 9, 10), repeat=4))
    cs += [dict(halos=h, files=(1, 2, 3), smax=2, k=k) for k, h in enumerate(four) if not X.quick or k % 5 == 0]
    X.bounds.update(halo_kinds=len(HALOS), halos=4, files=3)
    X.each(cs, fn)

    # every type, radius definition, unit system and minimum for a few tables, one, two or three files
    def cfg(c):
        run([HALOS[k] for k in c['halos']], tuple(c['cuts']), tuple(c['scuts']), c['otype'], c['rdef'], c['units'], c['min'])
    X.each([dict(halos=h, cuts=cu, scuts=sc, otype=ot, rdef=rd, units=un, min=mi) for h, cu, sc in (((5, 1, 9, 7), (0, 4), (0, 4)), ((3, 9, 7, 1), (0, 2, 4), (0, 1, 4)), ((9, 0, 11, 7), (0, 0, 2, 4), (0, 2, 6, 6)))
            for ot in PT for rd in ('Rvir', 'R200') for un in worlds.UNITS for mi in (1, 2, 3, 4)], cfg, group='configurations')

    # more than ten files: numeric order, one halo each, some files empty
    def many(c):
        halos = [HALOS[(c['first'] + 5 * i) % len(HALOS)] for i in range(c['n'])]
        ns = [0] + list(np.cumsum([h[0] for h in halos]))
        cuts = tuple(range(c['n'] + 1))
        run(halos, cuts, tuple(int(x) for x in ns), 'dm', 'Rvir', 'b')
    X.each([dict(n=n, first=f) for n in (10, 11, 12, 13) for f in R], many, group='many files')

    # a folder whose files are replaced by another catalogue between two constructions in one process
    def rewritten(c):
        cnt[0] += 1
        grp = os.path.join(X.scratch, 'r%d' % cnt[0])
        for k, (h, cu, sc) in enumerate(c['tables']):
            shutil.rmtree(grp, ignore_errors=True)
            time.sleep(.02)                                   # file systems keep times in ticks of a few milliseconds
            run([HALOS[j] for j in h], tuple(cu), tuple(sc), c['otype'], c['rdef'], c['units'], grp=grp)
    T = [((5, 1, 9), (0, 3), (0, 4)), ((1, 5, 9), (0, 3), (0, 4)), ((9, 7), (0, 1, 2), (0, 2, 3)), ((7, 7, 5), (0, 3), (0, 3)), ((5, 5, 5), (0, 3), (0, 3))]
    X.each([dict(tables=t, otype=('dm', 'gas', 'stars')[k % 3], rdef=('Rvir', 'R200')[k % 2], units=('int', 'b')[k // 2 % 2]) for n in ((2,) if X.quick else (2, 3, 4))
            for k, t in enumerate(itertools.product(T, repeat=n))], rewritten, group='rewritten')

    # more halos, and larger ones, than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        small = [(3 + k % 4, 2, k % 3, .2 + .001 * k, (.2, .15, .1), (.5, .5, .5), 10 + k, None) for k in range(300)]
        hs = small[:100] + [big.HALOS[0][:2] + (300,) + big.HALOS[0][3:]] + small[100:200] + big.HALOS[2:] + small[200:]
        w = gworld.make(X.scratch, u, hs, otype='dm', rdef=c['rdef'], kind='hdf5', splits=2, fof_splits=c['fof'], min_ptcs=5)
        o = gworld.build(cp, w, X.scratch, 'dm', c['rdef'])
        X.step()
        idx, size = o.getIdxCat()
        if list(size) != [len(e) for e in w[0].objs] or not np.array_equal(idx, np.concatenate(w[0].objs)):
            raise Violation("302 halos: objects of sizes %s..., expected %s..." % (list(size)[:5], [len(e) for e in w[0].objs][:5]))
        if not np.allclose(o.getR200(), w[0].r200 * u.lout, rtol=3e-7):
            raise Violation("302 halos: radii differ")
        X.state('large', c['fof'], c['rdef'])
        X.ok()
    X.each([dict(fof=f, rdef=r, units=un) for f, r, un in ((1, 'Rvir', 'int'), (3, 'R200', 'b'), (12, 'Rvir', 'd'))], large, group='large')
