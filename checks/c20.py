"""C20 mass bins and plots: all mass patterns (with ties), bin numbers and selections of the bound; the contents of every saved figure are recorded and compared with reference medians and counts."""
import itertools, os, re
import numpy as np
import refmodel as rm, worlds, queries as Q
from mc import Violation

META = {"assumptions": ["objects of equal mass may be ordered either way", "the reference takes per-object shapes and densities from the library's own queries (decided by other checks)",
                        "figures are read when they are saved; pixels are not looked at"]}
SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}


def number(s):
    """'2.50 x 10^12' as the plots write it"""
    s = s.replace('⁻', '-')
    s = ''.join(SUP.get(c, c) if c in SUP else c for c in re.sub('10([⁰¹²³⁴⁵⁶⁷⁸⁹-]+)', lambda m: 'E' + ''.join(SUP.get(c, c) for c in m.group(1)), s))
    s = re.sub('[⠀\\s✕x×$\\\\]', '', s)
    return float('1' + s if s.startswith('E') else s)


def plain(label):
    return label.replace('\\mathrm', '').replace('\\odot', 'sun').replace('_', '').replace('{', '').replace('}', '').replace('10^10', 'E+10').replace(' ', '').replace('$', '').replace('\\', '')


class Shot:
    """what a figure holds when it is saved"""

    def __init__(self, fig, name):
        self.name = os.path.basename(str(name))
        self.dir = os.path.dirname(str(name))
        self.lines, self.points, self.bars, self.labels, self.texts = [], [], [], [], []
        for ax in fig.axes:
            for l in ax.get_lines():
                self.lines.append((np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), str(l.get_label())))
            for c in ax.collections:
                self.labels.append(str(c.get_label()))
                if hasattr(c, '_offsets3d'):
                    self.points.append((np.array([np.asarray(v, float) for v in c._offsets3d]).T, str(c.get_label())))
            for p in ax.patches:
                if hasattr(p, 'get_width'):
                    self.bars.append((p.get_x(), p.get_width(), p.get_height()))
            self.labels += [str(l.get_label()) for l in ax.get_lines()]
            self.texts += [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if hasattr(ax, 'get_zlabel') else [])


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.abs(b))))


def groupings(m, nb, cap=400):
    """all partitions into blocks of ceil(n/nb) in order of mass; ties in any order"""
    n = len(m)
    size = -(-n // nb)
    seen = []
    for p in itertools.permutations(range(n)):
        if all(m[p[i]] <= m[p[i + 1]] for i in range(n - 1)):
            g = tuple(frozenset(p[i:i + size]) for i in range(0, n, size))
            if g not in seen:
                seen.append(g)
                if len(seen) > cap:
                    break
    return seen


def explore(X):
    import cosmic_profiles as cp
    import cosmic_profiles.common.cosmo_tools as ct
    import cosmic_profiles.common.config as config
    import matplotlib.figure, matplotlib.pyplot as plt
    os.chdir(X.scratch)
    shots = []

    def save(self, fname, *a, **k):
        shots.append(Shot(self, fname))
    matplotlib.figure.Figure.savefig = save
    R = (.3, .2, .1)
    SH = [(26, .9, (.8, .6, .4), (.3, .6, .5), 1, R), (14, .6, (.9, .5, .45), (.98, .02, .4), 2, None), (19, 1.1, (.5, .4, .3), (.7, .8, .9), 3, R), (12, .5, (.7, .65, .6), (.1, .9, .3), 4, R), (16, .7, (.6, .5, .2), (.5, .1, .6), 5, None)]

    def cat(u, ranks, how='com', first=0):
        """5 objects whose masses are in the order given by `ranks` (equal ranks: equal masses)"""
        spec = SH[:len(ranks)]
        c = worlds.make(u, spec, how=how, order='block', strays=2)
        for o, k in zip(c.idx_in, ranks):
            w = c.m_in[o]
            c.m_in[o] = w / w.sum() * (2.0 ** k) / u.min / 100
        # exactly equal sums for equal ranks: one particle mass each, powers of two
        for o, k in zip(c.idx_in, ranks):
            n = len(o)
            half = n // 2
            v = np.full(n, 2.0 ** (k - 12))
            v[:half] *= 2
            v[0] += 2.0 ** (k - 3) - v.sum()
            c.m_in[o] = v / u.min if u.min == 1 else v
        # which particle of an object comes first: as generated, or the one with the smallest or largest coordinate
        for o in c.idx_in if first else []:
            j = sorted(range(len(o)), key=lambda i: c.xyz_in[o[i], abs(first) - 1])[0 if first > 0 else -1]
            o.insert(0, o.pop(j))
        return rm.Cat(c.xyz_in, c.m_in, c.idx_in, c.r200_in, c.L_in, u, 1, how)

    def call(f):
        shots.clear()
        X.step()
        try:
            f()
        finally:
            plt.close('all')
        for s in shots:
            if os.path.realpath(s.dir or '.') != os.path.realpath(os.path.join(X.scratch, 'viz')):
                raise Violation("figure %s is written to %s, not to the object's folder for figures" % (s.name, s.dir))
        return list(shots)

    # ------------------------------------------------------------------ the split itself
    def split(c):
        n, nb = c['n'], c['nb']
        for m in itertools.product(c['alpha'], repeat=n - len(c['head'])):
            m = np.array(tuple(c['head']) + m, float) * 1.7e11
            cen = np.column_stack([np.arange(n), np.arange(n) + .5, -np.arange(n)]).astype(float)
            why = "masses %s, %d bins" % (m, nb)
            keep = m.copy(), cen.copy()
            edges, mg, cg, ig = ct.M_split(m, cen, 0., NB_BINS=nb)
            X.step()
            if not (np.array_equal(keep[0], m) and np.array_equal(keep[1], cen)):
                raise Violation("%s: the arguments were changed" % why)
            ig = [[int(i) for i in g] for g in ig]
            size = -(-n // nb)
            if [len(g) for g in ig] != [min(size, n - i) for i in range(0, n, size)]:
                raise Violation("%s: bins of sizes %s" % (why, [len(g) for g in ig]))
            flat = [i for g in ig for i in g]
            if sorted(flat) != list(range(n)):
                raise Violation("%s: objects %s in the bins" % (why, flat))
            if any(m[flat[k]] > m[flat[k + 1]] for k in range(n - 1)):
                raise Violation("%s: not in order of mass: %s" % (why, m[flat]))
            if not all(same(np.array(a, float), m[g]) for a, g in zip(mg, ig)) or len(mg) != len(ig):
                raise Violation("%s: masses in bins %s, indices %s" % (why, mg, ig))
            if not all(same(np.array(a, float), cen[g]) for a, g in zip(cg, ig)) or len(cg) != len(ig):
                raise Violation("%s: centres in bins %s, indices %s" % (why, cg, ig))
            exp = [m[g[0]] for g in ig] + [m.max()]
            if not same(edges, exp):
                raise Violation("%s: bin edges %s, expected %s" % (why, edges, exp))
            X.ok()
            X.outcome(tuple(map(tuple, ig)))
            X.state('split', tuple(m), nb)

    def edge_labels(sh, m_out, groups, why, what):
        """the mass ranges written into the figures, in Msun/h"""
        got = []
        for s in sh:
            t = [l for l in s.labels if 'M:' in l]
            if len(t) != 1:
                raise Violation("%s: %s %s: mass range labels %s" % (why, what, s.name, t))
            body = t[0].split('M:')[1]
            unit = body.index('M_') if 'M_' in body else len(body)
            a, b = body[:unit].rstrip('\\ ').rstrip().rsplit(' - ', 1)
            got.append((number(a.strip(' \\')), number(b.strip(' \\'))))
        exp = [(min(m_out[i] for i in g), min(m_out[i] for i in groups[k + 1]) if k + 1 < len(groups) else max(m_out)) for k, g in enumerate(groups)]
        for (a, b), (c, d) in zip(got, exp):
            if not (abs(a / c - 1) < 6e-3 and abs(b / d - 1) < 6e-3):
                raise Violation("%s: %s mass ranges %s, expected %s" % (why, what, got, exp))

    def match(sh, groups_all, pick, why, what):
        """the grouping for which every figure shows the expected curve"""
        for gs in groups_all:
            if len(gs) == len(sh) and all(pick(s, sorted(g)) for s, g in zip(sh, gs)):
                return gs
        raise Violation("%s: %s per mass bin: %s; expected for one of %s: %s" % (why, what, [(s.name, [l[1] for l in s.lines]) for s in sh], [list(map(sorted, g)) for g in groups_all][:3],
                                                                                [getattr(pick, 'exp', lambda g: None)(sorted(g)) for g in groups_all[0]]))

    def has(s, x, y, rtol=1e-9):
        return any(same(l[0], x) and same(l[1], y, rtol) for l in s.lines)

    # ------------------------------------------------------------------ plots
    def plots(c):
        u = worlds.set_units(cp, c['un'])
        ranks = tuple(c['ranks'])
        w = cat(u, ranks, c['how'], c.get('first', 0))
        o = worlds.build(cp, w, X.scratch)
        n = len(ranks)
        if c['check'] == 'eps':
            return eps(c, u, w, o)
        masses = np.array([w.mass_center(k)[0] / u.mout for k in range(n)])       # internal units
        ms = masses * 1e10                                                        # Msun/h, as labelled
        for sel, nb in c['runs']:
            sel = list(sel)
            N = len(sel)
            m = ms[sel]
            # library sums decide ties exactly as the reference does: equal ranks have equal masses up to rounding
            mr = [ranks[k] for k in sel]
            groups = groupings(mr, nb)
            why = "units %s, centre %s, mass ranks %s, selection %s, %d bins" % (c['un'], c['how'], ranks, sel, nb)
            if c['check'] == 'dens':
                r, rf = np.logspace(-1.4, 0, 7), np.logspace(-1.2, -.1, 9)
                amp = np.array([(3 + 2 * ((5 * k) % 7)) * u.dout for k in sel])
                nfw = lambda x: 1 / ((x / .25) * (1 + x / .25) ** 2)
                dp = amp[:, None] * nfw(r) * (1 + .2 * np.cos(np.arange(N)[:, None] * 2.3 + 9 * r))
                df = amp[:, None] * nfw(rf)
                sh = call(lambda: o.plotDensProfs(dp, r, df, rf, {'profile': 'nfw', 'min_method': 'Nelder-Mead'}, nb, sel))
                if len(sh) != 1 + len(groups[0]):
                    raise Violation("%s: %d density figures, expected one for all and %d" % (why, len(sh), len(groups[0])))
                alls = [s for s in sh if not any('M:' in l for l in s.labels)]
                bins = [s for s in sh if any('M:' in l for l in s.labels)]
                if len(alls) != 1:
                    raise Violation("%s: figures %s" % (why, [s.name for s in sh]))

                def curve(s, g):
                    return has(s, r, np.median(dp[g], axis=0), 1e-7) and has(s, rf, np.median(df[g], axis=0), .03)
                curve.exp = lambda g: np.median(dp[g], axis=0)
                if not curve(alls[0], list(range(N))):
                    raise Violation("%s: the figure for all objects shows %s, the median profile is %s, fitted %s" % (why, alls[0].lines, np.median(dp, axis=0), np.median(df, axis=0)))
                gs = match(bins, groups, curve, why, 'densities')
                edge_labels(bins, list(m), [sorted(g) for g in gs], why, 'density')
                # with a fixed scale radius the curve depends on the mean overdensity radius of the objects shown
                rs = .2 * u.lout
                rsel = np.array([w.r200[k] for k in sel]) * u.lout

                def fixed(s, g):
                    x = rf * rsel[g].mean() / rs
                    mod = 1 / (x * (1 + x) ** 2)
                    md = np.median(df[g], axis=0)
                    return has(s, r, np.median(dp[g], axis=0), 1e-7) and has(s, rf, mod * np.exp(np.mean(np.log(md / mod))), .01)
                fixed.exp = lambda g: ('fixed scale radius', np.median(dp[g], axis=0))
                sh2 = call(lambda: o.plotDensProfs(dp, r, df, rf, {'profile': 'nfw', 'r_s': rs, 'min_method': 'Nelder-Mead'}, nb, sel))
                alls, bins = [s for s in sh2 if not any('M:' in l for l in s.labels)], [s for s in sh2 if any('M:' in l for l in s.labels)]
                if len(alls) != 1 or not fixed(alls[0], list(range(N))):
                    raise Violation("%s: scale radius fixed to %g: the figure for all objects shows %s" % (why, rs, alls[0].lines))
                match(bins, groups, fixed, why, 'densities with fixed scale radius')
                for s in sh:
                    lab = plain(''.join(s.texts))
                    l, mm, _ = config.LMVLabel()
                    for part in (l, mm):
                        if c['un'] != 'd' and ('(%s)' % part if '/h' in part else part) not in lab:
                            raise Violation("%s: axis labels %s for the output units %s %s" % (why, s.texts, l, mm))
                X.ok(len(sh))
                X.outcome('dens', tuple(map(tuple, map(sorted, gs))))
            else:
                KZ = worlds.katz(c['radii'], 1e-2, 60, 5)
                loc = np.array(o.getShapeCatLocal(sel, katz_config=KZ))
                if c['check'] == 'shape':
                    sh = call(lambda: o.plotShapeProfs(nb, sel, katz_config=KZ))
                    q, s_ = loc['q'], loc['s']
                    with np.errstate(all='ignore'):
                        cur = {'q': q, 's': s_, 'T': (1 - q ** 2) / (1 - s_ ** 2)}

                    def med(a, g):
                        with np.errstate(all='ignore'):
                            return np.array([np.median(x[~np.isnan(x)]) if np.any(~np.isnan(x)) else np.nan for x in a[g].T])
                    gsel = set(groups)
                    for v, a in cur.items():
                        mine = [s for s in sh if s.texts[1].strip('$') == v]
                        alls = [s for s in mine if 'M' not in s.name[1:].split('_')[0]]
                        bins = [s for s in mine if s not in alls]
                        if len(alls) != 1 or len(bins) != len(groups[0]):
                            raise Violation("%s: figures of %s: %s" % (why, v, [s.name for s in mine]))
                        if not has(alls[0], KZ['ROverR200'], med(a, list(range(N)))):
                            raise Violation("%s: %s of all objects %s, median over the converged ones %s" % (why, v, alls[0].lines, med(a, list(range(N)))))

                        def curve(s, g):
                            return has(s, KZ['ROverR200'], med(a, g))
                        curve.exp = lambda g: med(a, g)
                        ok = {gs for gs in groups if all(curve(s, sorted(g)) for s, g in zip(bins, gs))}
                        if not ok:
                            match(bins, groups, curve, why, v)
                        gsel &= ok
                        gs = sorted(ok, key=str)[0]
                        edge_labels(bins, list(m), [sorted(g) for g in gs], why, v)
                    if not gsel:
                        raise Violation("%s: q, s and T are shown for different mass bins" % why)
                    X.ok(len(sh))
                    X.outcome('shape', tuple(map(tuple, map(sorted, sorted(gsel, key=str)[0]))))
                else:
                    glo = np.array(o.getShapeCatGlobal(sel, katz_config=KZ))
                    for kind, frac in (('local', .3), ('local', .62), ('local', 1.2), ('global', None)):
                        for hb in (2, 4, 11):
                            if kind == 'local':
                                sh = call(lambda: o.plotLocalTHist(hb, frac, sel, katz_config=KZ))
                                r200 = np.array([w.r200[k] for k in sel]) * u.lout
                                dist = np.abs(loc['d'] - frac * r200[:, None])
                                conv = np.where(np.isnan(dist), np.inf, dist)
                                srt = np.sort(conv, axis=1)
                                if np.any(srt[:, 1] - srt[:, 0] < 1e-9 * srt[:, 1]):
                                    X.skipped += 1
                                    continue
                                near = np.argmin(conv, axis=1)          # the converged radius closest to the one asked for
                                q, s_ = (loc[f][np.arange(N), near] for f in 'qs')
                            else:
                                sh = call(lambda: o.plotGlobalTHist(hb, sel, katz_config=KZ))
                                q, s_ = glo['q'].reshape(N, -1)[:, -1], glo['s'].reshape(N, -1)[:, -1]
                            with np.errstate(all='ignore'):
                                T = (1 - q ** 2) / (1 - s_ ** 2)
                            bars(sh, T[~np.isnan(T)], hb, "%s, %s triaxiality at %s, %d" % (why, kind, frac, hb))
            X.state(c['check'], c['un'], ranks, tuple(sel), nb, c['how'])

    def bars(sh, vals, hb, why):
        if len(sh) != 1:
            raise Violation("%s: %d figures" % (why, len(sh)))
        if len(vals) == 0:
            X.skipped += 1
            return
        edges = np.linspace(0, 1, hb)
        if np.min(np.abs(vals[:, None] - edges[None])) < 1e-9:
            X.skipped += 1
            return
        cnt, _ = np.histogram(vals, edges)
        got = [b for b in sh[0].bars]
        if len(got) != len(cnt) or not same([b[0] for b in got], edges[:-1], 1e-9) and not np.max(np.abs(np.array([b[0] for b in got]) - edges[:-1])) <= 1e-9:
            raise Violation("%s: bars %s" % (why, got))
        if cnt.sum():
            exp = cnt / cnt.sum() * (hb - 1)
            if not np.max(np.abs(np.array([b[2] for b in got]) - exp)) <= 1e-9:        # NaN heights: every object was lost
                raise Violation("%s: heights %s, expected %s (values %s)" % (why, [b[2] for b in got], exp, vals))
        elif any(b[2] > 0 for b in got):
            raise Violation("%s: heights %s although no value lies in the range (values %s)" % (why, [b[2] for b in got], vals))
        X.ok()
        X.outcome('hist', tuple(cnt))

    def eps(c, u, w, o):
        for sel in c['sels']:
            for kind, frac in (('global', None), ('local', .45), ('local', .9), ('local', 3.)):
                vals, tie = [], False
                for k in sel:
                    x, m = w.parts(k)
                    t = rm.Ties()
                    ext = float(np.max(x.max(axis=0) - x.min(axis=0)))
                    ce = rm.center(x, m, w.how, ext, t)
                    if frac is not None:
                        d = np.linalg.norm(x - ce, axis=1)
                        inside = t.lt(d, frac * w.r200[k])
                        x, m = x[inside], m[inside]
                        if not len(x):
                            continue
                        ext = float(np.max(x.max(axis=0) - x.min(axis=0)))
                        ce = rm.center(x, m, w.how, ext, t)
                    tie |= t.tie
                    y = x - ce
                    a, b, e = (m * y[:, 0] ** 2).sum(), (m * y[:, 1] ** 2).sum(), (m * y[:, 0] * y[:, 1]).sum()
                    if a + b == 0:
                        tie = True
                        continue
                    vals.append(np.hypot(a - b, 2 * e) / (a + b))
                for hb in (2, 5, 9):
                    why = "units %s, centre %s, selection %s, %s ellipticities within %s, %d" % (c['un'], c['how'], sel, kind, frac, hb)
                    sh = call((lambda: o.plotGlobalEpsHist(hb, list(sel))) if kind == 'global' else (lambda: o.plotLocalEpsHist(frac, hb, list(sel))))
                    if tie:
                        X.skipped += 1
                        continue
                    bars(sh, np.array(vals), hb, why)
            # the drawings of single objects
            KZ = worlds.katz([.5, .9, 1.3], 1e-2, 60, 5)
            for kind in ('Global', 'Local'):
                cats = np.array(getattr(o, 'getShapeCat' + kind)(list(sel), katz_config=KZ))
                sh = call(lambda: getattr(o, 'viz%sShapes' % kind)(list(sel), katz_config=KZ))
                why = "units %s, centre %s, selection %s, drawings of %s shapes" % (c['un'], c['how'], sel, kind.lower())
                if len(sh) != len(sel):
                    raise Violation("%s: %d figures for %d objects" % (why, len(sh), len(sel)))
                for s, k, row in zip(sh, sel, cats):
                    if not re.search(r'Obj%d(?!\d)' % k, s.name):
                        raise Violation("%s: figure %s for object %d" % (why, s.name, k))
                    x = w.xyz[w.objs[k]] * u.lout
                    L = w.L * u.lout
                    per = lambda d: d - L * np.round(d / L)
                    own = [p for p, _ in s.points if p.shape == x.shape and np.max(np.abs(per(p - x))) < 1e-6 * L]
                    if not own:
                        raise Violation("%s: figure %s does not show the particles of object %d" % (why, s.name, k))
                    t = rm.Ties()
                    ce = w._center(k, t, shape=True) * u.lout
                    if t.tie:
                        X.skipped += 1
                        continue
                    one = [p[0] for p, _ in s.points if p.shape == (1, 3)]
                    if not any(np.max(np.abs(per(p - ce))) < 1e-6 * L for p in one):
                        raise Violation("%s: figure %s: centre %s, drawn %s" % (why, s.name, ce, one))
                    p0 = one[0]
                    if not np.max(np.abs(own[0] - p0)) <= L / 2:
                        raise Violation("%s: figure %s: the particles are drawn a box length away from the centre" % (why, s.name))
                    a, q, s_ = (np.atleast_1d(row[f])[-1] for f in 'dqs')
                    if not np.isnan(q):
                        ax = [np.asarray(row[f]).reshape(-1, 3)[-1] for f in ('major', 'inter', 'minor')]
                        good = False
                        for p, _ in s.points:
                            if len(p) >= 20 and p.shape != x.shape:
                                y = p - p0
                                lv = (y @ ax[0] / a) ** 2 + (y @ ax[1] / (q * a)) ** 2 + (y @ ax[2] / (s_ * a)) ** 2
                                good |= bool(np.max(np.abs(lv - 1)) < 1e-4)
                        if not good:
                            raise Violation("%s: figure %s: no point set on the ellipsoid %s %s %s" % (why, s.name, a, q * a, s_ * a))
                    if c['un'] != 'd' and not all(config.LMVLabel()[0] in t for t in s.texts):
                        raise Violation("%s: figure %s: axis labels %s" % (why, s.name, s.texts))
                    X.ok()
                    X.outcome('viz', kind, k)
            X.state('eps', c['un'], c['how'], tuple(sel))

    cs = []
    for n in range(1, 7 if X.quick else 8):
        al = (1., 2., 5.) if n > 4 else (1., 2., 2.5, 7.)
        for nb in range(1, n + 3):
            for h in (itertools.product(al, repeat=2) if n == 7 else [()]):
                cs.append(dict(n=n, nb=nb, alpha=al, head=list(h)))
    for n in (8, 9, 11, 16, 25, 60, 200, 300, 1000):       # many objects, masses over seven decades, without and with ties
        for nb in sorted({1, 2, 3, 4, 5, 7, 10, n // 2, n - 1, n, n + 1}):
            for st, w in ((7, n), (13, n), (11, max(n // 3, 2))):
                cs.append(dict(n=n, nb=nb, alpha=(), head=[10. ** (-3 + 7. * ((k * st + 3) % w) / w) for k in range(n)]))
    X.each(cs, split, group='mass split')
    pats = {1: [(0,)], 2: [(0, 1), (1, 0), (0, 0)], 3: list(itertools.permutations(range(3))) + [(0, 0, 1), (1, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)],
            4: list(itertools.permutations(range(4))) + [(0, 1, 0, 1), (0, 0, 0, 0), (1, 1, 1, 0), (2, 0, 2, 1)], 5: [(4, 1, 3, 0, 2), (0, 1, 2, 3, 4), (1, 1, 0, 2, 1)] if X.quick else list(itertools.permutations(range(5)))}
    cs, k = [], 0
    for n, ps in pats.items():
        for p in ps:
            k += 1
            if X.quick and n == 4 and k % 4:
                continue
            sels = [list(range(n)), list(range(n))[::-1]] + ([[n - 1] + list(range(n - 2))] if n > 2 else [])
            runs = [(s, nb) for s in sels for nb in range(1, n + 1)]
            un = ('int', 'a', 'b', 'c', 'd')[k % 5]
            how = ('com', 'mode')[k % 2]
            for chk in ('dens', 'shape', 'T'):
                rr = runs if not X.quick else runs[k % 2::2] if n < 4 else runs[k % 5::5]
                if chk == 'T':
                    rr = [(s, 1) for s in sels]
                if X.quick and chk == 'T' and k % 3:
                    continue
                cs.append(dict(ranks=list(p), runs=rr, check=chk, un=un, how=how, radii=[.35, .7, 1.1] if k % 3 else [.3, .5, .7, .9, 1.3]))
    sel5 = [[0, 1, 2, 3, 4], [3, 1], [2], [4, 0, 1]]
    for un in ('int', 'a', 'b', 'c', 'd'):
        for how in ('com', 'mode'):
            for i in range(len(sel5)):
                if not X.quick or i == ('int', 'a', 'b', 'c', 'd').index(un) % 4 or (i == 3 and how == 'mode'):
                    cs.append(dict(ranks=[4, 1, 3, 0, 2], check='eps', un=un, how=how, first=(0, 1, -1, 2, -2)[len(cs) % 5], sels=[sel5[i]] if not X.quick else [sel5[i], sel5[(i + 1) % 4]]))
    X.each(cs, plots, group='plots')
    X.bounds.update(objects=6 if X.quick else 7, plotted_objects=5, bins=6)
