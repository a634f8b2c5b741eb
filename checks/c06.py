"""C06 spherical-shell density profiles: every catalogue of a bounded family, compared with the reference model."""
import itertools
import numpy as np
import refmodel as rm, worlds, big
from mc import Violation

META = {"assumptions": ["a profile value is left uncompared when a particle lies within 2e-6 (relative) of a shell edge"]}

SPECS = {
    # (n, r200, axes, centre/L, seed, rot) in internal units
    '1x1': [(1, 0.5, (.3, .3, .3), (.5, .5, .5), 1, None)],
    '1x4': [(4, 0.5, (.4, .4, .4), (.5, .5, .5), 2, None)],
    '1x5': [(5, 0.5, (.6, .4, .3), (.5, .5, .5), 3, (0.3, 0.2, 0.1))],
    '1x60': [(60, 0.7, (.8, .5, .4), (.5, .5, .5), 4, (0.3, 0.2, 0.1))],
    '2x': [(7, 0.5, (.5, .4, .3), (.02, .5, .97), 5, None), (12, 0.9, (.8, .8, .2), (.7, .01, .4), 6, None)],
    '3x': [(20, 0.4, (.5, .4, .3), (.2, .2, .2), 7, None), (3, 0.6, (.5, .4, .3), (.5, .99, .5), 8, None), (33, 1.1, (.9, .9, .9), (.99, .99, .99), 9, None)],
    '5x': [(6 + 5 * k, 0.3 + 0.2 * k, (.5, .3, .3), (.1 + .2 * k, .5, (.3 * k) % 1), 10 + k, None) for k in range(5)],
    '1x230': [(230, 0.8, (.9, .6, .5), (.5, .0, .5), 30, (1., .5, .2))],
}
RADII = {
    'one': [1.0], 'two': [0.4, 1.1], 'log8': list(np.logspace(-1.3, 0.1, 8)), 'lin5': [0.1, 0.3, 0.5, 0.8, 1.2],
    'log25': list(np.logspace(-2, 0.3, 25)), 'nonmono-gap': [0.05, 0.9, 0.95, 1.6],
}


def selections(n, full):
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            yield list(c)
            if full and k > 1:
                yield list(c[::-1])
                if k > 2:
                    yield [c[1], c[0]] + list(c[2:])


def cases(X):
    units = ['int', 'a', 'b', 'c', 'd']
    for name, sp in SPECS.items():
        for how in ('com', 'mode'):
            for order in ('inter', 'block', 'rev'):
                for u in units:
                    if X.quick and not (u in ('b', 'd') or order == 'inter'):
                        continue
                    for mf in ('equal', 'var', 'steep'):
                        if X.quick and mf == 'steep' and u != 'a':
                            continue
                        yield {'spec': name, 'how': how, 'order': order, 'units': u, 'mass': mf}


MASS = {'equal': lambda i: np.full(len(i), .02), 'var': None, 'steep': lambda i: 10.0 ** (-3 + (i % 5))}


def explore(X):
    import cosmic_profiles as cp

    def fn(c):
        u = worlds.set_units(cp, c['units'])
        cat = worlds.make(u, worlds.scaled(SPECS[c['spec']], c.get('scale', 1.)), L=10. * c.get('scale', 1.), how=c['how'], order=c['order'], massfn=MASS[c['mass']], open=c['units'] == 'c')
        obj = worlds.build(cp, cat, X.scratch)
        n = len(cat.objs)
        refs = {}
        X.state(tuple(sorted(c.items())))
        for rn, r in RADII.items():
            for o in range(n):
                refs[rn, o] = cat.dens_sph(o, r)
            for sel in selections(n, True):
                if n > 3 and len(sel) not in (1, 2, n) and X.quick:
                    continue
                got = obj.estDensProfs(np.array(r), sel if len(sel) % 2 else np.array(sel), direct_binning=True, spherical=True)
                X.step()
                got = np.asarray(got)
                if got.shape != (len(sel), len(r)):
                    raise Violation("estDensProfs(%s, %s) has shape %s" % (rn, sel, got.shape))
                for i, o in enumerate(sel):
                    ref, tie = refs[rn, o]
                    if tie:
                        X.skipped += 1
                        continue
                    if not rm.close(got[i], ref, 1e-5):
                        raise Violation("object %d of selection %s, radii %s:\n got %s\n expected %s" % (o, sel, rn, got[i], ref))
                    # the mass inside the last radius is what the shells add up to
                    e = np.concatenate([[1e-8], (np.array(r[:-1]) + np.array(r[1:])) / 2, r[-1:]]) * cat.r200[o] * u.lout
                    mass = (got[i] * 4 / 3 * np.pi * np.diff(e ** 3)).sum()
                    X.ok()
                    X.outcome(c['spec'], rn, o, tuple(np.round(np.nan_to_num(np.log10(np.maximum(ref, 1e-300))), 3)))
        X.bounds.update({"objects": 5, "particles per object": 230, "radial grids": len(RADII)})

    X.each(cases(X), fn)
    # galaxies of a few hundred parsecs, structures of a hundred megaparsecs
    X.each([dict(d, scale=f) for d in cases(X) for f in (3e-4, 300.) if d['order'] == 'inter' and d['units'] in (('d',) if X.quick else ('int', 'd'))], fn, group='scales')

    # Micro space: all placements of 3 mirrored particle pairs over radial slots around every bin edge, times all
    # mass assignments; the centre is known exactly (0).  1000 objects per catalogue.
    for rname, r in (('three', [0.2, 0.5, 1.0]), ('two', [0.3, 0.8]), ('one', [0.9])):
        r = np.array(r)
        e = np.concatenate([[1e-8], (r[:-1] + r[1:]) / 2, r[-1:]])
        slots = [0.0, 3e-3] + [x * f for x in e[1:] for f in (1 - 1e-3, 1 + 1e-3)] + [(e[0] + e[1]) / 2, 1.4 * e[-1]]
        pl = list(itertools.product(range(len(slots)), repeat=3))
        combos = [(a, b) for a in pl for b in itertools.product((1.0, 5.0), repeat=3)] if not X.quick else \
                 [(a, b) for i, a in enumerate(pl) for b in [((1.0, 5.0, 25.0), (5.0, 1.0, 1.0))[i % 2]]]
        chunks = [{'radii': rname, 'how': how, 'units': u, 'from': k, 'to': min(k + 250, len(combos))}
                  for how in ('com', 'mode') for u in ('int', 'd') for k in range(0, len(combos), 250)]

        def micro(c, r=r, slots=slots, combos=combos):
            u = worlds.set_units(cp, c['units'])
            part = combos[c['from']:c['to']]
            dirs = np.array([[.6, .64, .48], [-.36, .48, .8], [.8, -.36, .48]])
            dirs /= np.linalg.norm(dirs, axis=1)[:, None]
            r200, L = 0.7, 10.0
            pos, m, idx = [], [], []
            for (sl, ms) in part:
                idx.append(list(range(len(pos), len(pos) + 6)))
                for j in range(3):
                    x = dirs[j] * slots[sl[j]] * r200
                    pos += [5.0 + x, 5.0 - x]
                    m += [ms[j]] * 2
            cat = rm.Cat(np.array(pos) / u.lin, np.array(m) / u.min, idx, np.full(len(part), r200) / u.lin, L / u.lin, u, 6, c['how'])
            obj = worlds.build(cp, cat, X.scratch)
            got = np.asarray(obj.estDensProfs(r, list(range(len(part))), direct_binning=True, spherical=True))
            X.step()
            ed = np.concatenate([[1e-8], (r[:-1] + r[1:]) / 2, r[-1:]])
            vol = 4 / 3 * np.pi * np.diff((ed * r200) ** 3)
            for i, (sl, ms) in enumerate(part):
                ref = np.zeros(len(r))
                for j in range(3):
                    for k in range(len(r)):
                        if ed[k] <= slots[sl[j]] < ed[k + 1]:
                            ref[k] += 2 * ms[j]
                ref = ref / vol * u.dout
                if not rm.close(got[i], ref, 1e-5):
                    raise Violation("pairs at %s r200 with masses %s: got %s, expected %s" % ([slots[q] for q in sl], ms, got[i], ref))
                X.ok()
                X.state(rname, sl, ms)
        X.each(chunks, micro, group='micro')

    # more particles and objects than narrow counters hold
    def large(c):
        u = worlds.set_units(cp, c['units'])
        cat = big.world(u, c['how'], c['order'])
        obj = worlds.build(cp, cat, X.scratch)
        X.state('large', c['how'], c['order'], c['units'])
        for r, sel in itertools.product((RADII['log8'], list(np.logspace(-1.5, .2, 300))), big.SELS):
            got = np.asarray(obj.estDensProfs(np.array(r), sel, direct_binning=True, spherical=True))
            X.step()
            for i, o in enumerate(sel):
                ref, tie = cat.dens_sph(o, r)
                if tie and o not in big.BIG:
                    X.skipped += 1
                elif tie and np.sum(~np.isclose(got[i], ref, rtol=1e-5, atol=0)) > 12 or not tie and not rm.close(got[i], ref, 1e-5) or not rm.close(got[i], ref, big.rtol(o, 1e-5) * (1 if len(r) < 10 else 40)):
                    raise Violation("object %d of 302:\n got %s\n expected %s" % (o, got[i], ref))
                X.ok()
    X.each([dict(how=h, order=o, units=un) for h, o, un in (('com', 'inter', 'int'), ('com', 'block', 'd'), ('mode', 'rev', 'b'))], large, group='large')
