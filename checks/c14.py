"""C14 catalogue construction and selections: complete small spaces of object sizes and of selections."""
import os, itertools, shutil
import numpy as np
import refmodel as rm, worlds, gworld, big, queries as Q
from mc import Violation

META = {"assumptions": ["selections of integral floating-point numbers and of booleans are left open"]}


def valid(sel, n):
    return len(sel) > 0 and all(float(e) == int(e) for e in sel) and len(set(sel)) == len(sel) and all(0 <= e < n for e in sel)


def listing(d):
    return sorted(os.path.join(p, f) for p, ds, fs in os.walk(d) for f in fs + ds)


def explore(X):
    import cosmic_profiles as cp

    # A. construction: every list of object sizes, every minimum
    def cons(c):
        u = worlds.set_units(cp, c['units'])
        for sizes in c['sizes']:
            N = sum(sizes) + 2
            g = np.random.default_rng(3)
            xyz, m = g.uniform(3, 5, (N, 3)), 1. + .25 * np.arange(N)
            perm = g.permutation(N)
            idx, k = [], 0
            for s in sizes:
                idx.append([int(i) for i in perm[k:k + s]])
                k += s
            r200 = .5 + .1 * np.arange(len(sizes))
            for mn in c['mins']:
                cat = rm.Cat(xyz / u.lin, m / u.min, idx, r200 / u.lin, 10. / u.lin, u, mn, 'com')
                if not cat.keep:
                    X.count('no_object')
                    continue
                o = worlds.build(cp, cat, X.scratch)
                X.step()
                ic, sz = o.getIdxCat()
                if list(sz) != [len(idx[k]) for k in cat.keep] or list(ic) != [i for k in cat.keep for i in idx[k]]:
                    raise Violation("sizes %s, minimum %d: indices %s sizes %s; expected objects %s of %s" % (sizes, mn, list(ic), list(sz), cat.keep, idx))
                if not np.allclose(o.getR200(), r200[cat.keep] * u.lout, rtol=1e-9):
                    raise Violation("sizes %s, minimum %d: radii %s, expected %s" % (sizes, mn, o.getR200(), r200[cat.keep] * u.lout))
                n = len(cat.keep)
                got = o.getMassesCenters(list(range(n)))['mass']
                exp = np.array([m[idx[k]].sum() for k in cat.keep]) * u.mout
                if not np.allclose(got, exp, rtol=1e-6):
                    raise Violation("sizes %s, minimum %d: masses %s, expected %s" % (sizes, mn, got, exp))
                X.ok()
                X.state('cons', sizes, mn)
                X.outcome(tuple(cat.keep), tuple(sz))
    S = (0, 1, 2, 3, 4)
    allsizes = [s for n in range(1, 6 if X.quick else 7) for s in itertools.product(S, repeat=n)]
    blk = 60
    X.each([dict(sizes=allsizes[k:k + blk], mins=(1, 2, 3, 4) if k // blk % 2 or not X.quick else (2, 3), units=('int', 'a', 'b', 'c', 'd')[k // blk % 5]) for k in range(0, len(allsizes), blk)], cons, group='construction')

    # B. selections
    R = (.3, .2, .1)
    SPEC = [(14, .5, (.6, .4, .3), (.5, .5, .5), 4, R), (3, .5, (.6, .4, .3), (.5, .5, .5), 5, R), (25, .6, (.5, .45, .3), (.2, .8, .1), 6, R), (11, .4, (.4, .3, .3), (.99, .1, .3), 7, R)]
    HAL = [(14, 2, 1, .5, (.6, .4, .3), (.5, .5, .5), 4, R), (3, 1, 1, .5, (.6, .4, .3), (.5, .5, .5), 5, R), (25, 3, 2, .6, (.5, .45, .3), (.2, .8, .1), 6, R), (11, 0, 1, .4, (.4, .3, .3), (.99, .1, .3), 7, R)]

    def variants(sel):
        yield 'list', list(sel)
        if all(isinstance(e, int) and abs(e) < 2 ** 31 for e in sel):
            yield 'int32', np.array(sel, np.int32)
            yield 'int64', np.array(sel, np.int64)
        else:
            yield 'array', np.array(sel)

    def selections(c):
        u = worlds.set_units(cp, 'a')
        root = os.path.join(X.scratch, 'sel')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        if c['front'] == 'gadget':
            o = gworld.build(cp, gworld.make(X.scratch, u, HAL[:c['objs']]), root)
        else:
            o = worlds.build(cp, worlds.make(u, SPEC[:c['objs']], min_ptcs=5), root)
        n = len(o.getR200())
        name = c['query']
        q = {**Q.ROWS, **Q.FITS, **Q.VEL, **Q.DUMPS, **Q.VDUMPS, **Q.PLOTS}[name]
        E = [0, 1, 2, n - 1, n, n + 3, -1, -n, 0.5, 1.5, n - .5, -.25, 2 ** 40, float('nan')]
        E = list(dict.fromkeys(E))
        before = listing(root)
        todo = [()] + [s for k in range(1, c['len'] + 1) for s in itertools.product(E, repeat=k)]
        ref = {}
        run = name in Q.ROWS or name in Q.FITS or name in Q.VEL
        for sel in todo:
            if any(isinstance(e, float) for e in sel) and all(float(e) == e and abs(e) < 1e300 and int(e) == e for e in sel):
                continue
            good = not any(e != e for e in sel) and valid(sel, n)
            if good and not run and not (len(sel) == min(2, n) and c['accept']):
                continue
            for how, s in variants(sel):
                X.step()
                err = None
                try:
                    res = q(o, s)
                except Exception as e:
                    err = e
                if good:
                    if err is not None:
                        raise Violation("%s rejects the selection %s (%s, %d objects): %s: %s" % (name, sel, how, n, type(err).__name__, err))
                    if run and (len(res) != len(sel) or not Q.same(res, ref.setdefault(sel, res))):
                        raise Violation("%s of the selection %s (%s): %s, as a list %s" % (name, sel, how, res, ref[sel]))
                elif err is None:
                    raise Violation("%s accepts the selection %s (%s, %d objects)" % (name, sel, how, n))
                elif not isinstance(err, ValueError):
                    raise Violation("%s does not reject the selection %s (%s, %d objects), but fails: %s: %s" % (name, sel, how, n, type(err).__name__, err))
                elif not run and not c['accept'] and listing(root) != before:
                    raise Violation("%s rejects the selection %s (%s, %d objects), yet leaves files or folders: %s" % (name, sel, how, n, set(listing(root)) - set(before)))
                X.ok()
            X.outcome(name, sel, good)
            X.state(c['front'], c['objs'], name, sel)
        # rejected requests left no trace in later answers
        if run:
            for sel, r in ref.items():
                if len(sel) == n and not Q.same(q(o, list(sel)), r):
                    raise Violation("%s of %s changed after rejected requests" % (name, sel))
    cs = []
    for fr in ('arrays', 'gadget'):
        names = [*Q.ROWS, *Q.FITS, *Q.DUMPS, *Q.PLOTS] + ([*Q.VEL, *Q.VDUMPS] if fr == 'gadget' else [])
        for q in names:
            for objs in (1, 3, 4):
                if X.quick and (fr, objs) in (('arrays', 3), ('gadget', 4)):
                    continue
                heavy = q in Q.FITS or q in Q.ROWS or q in Q.VEL
                cs.append(dict(front=fr, query=q, objs=objs, len=(2 if q in Q.FITS else 3) if not X.quick or (heavy and fr == 'arrays' and q not in ('fit', 'conc')) or q in Q.DUMPS else 2, accept=False))
        cs += [dict(front=fr, query=q, objs=3, len=2, accept=True) for q in (*Q.PLOTS, *Q.DUMPS)]
    X.bounds.update(objects=5, selection_length=3)
    X.each(cs, selections)

    # C. every integer type, at and next to the last number it can hold
    def inttypes(c):
        u = worlds.set_units(cp, 'a')
        root = os.path.join(X.scratch, 'types')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        n = len(big.SPEC)
        o = worlds.build(cp, big.world(u), root)
        q = {**Q.ROWS, **Q.PLOTS}[c['query']]
        dt = np.dtype(c['dtype'])
        top = min(int(np.iinfo(dt).max), n - 1)
        sels = [[top], [top - 1, top], [top, 1]] if c['query'] in Q.ROWS else [[top]]
        for sel in sels:
            X.step()
            try:
                res = q(o, np.array(sel, dt))
            except Exception as e:
                raise Violation("%s rejects the selection %s of type %s: %s: %s" % (c['query'], sel, dt, type(e).__name__, e))
            if c['query'] in Q.ROWS and not Q.close_rows(res, q(o, list(sel)), 1e-6):
                raise Violation("%s of the selection %s of type %s: %s, as a list %s" % (c['query'], sel, dt, res, q(o, list(sel))))
            X.ok()
            X.state(c['query'], str(dt), tuple(sel))
        wrong = [top, n] if np.iinfo(dt).max >= n else [top, top]
        try:
            q(o, np.array(wrong, dt))
        except ValueError:
            pass
        else:
            raise Violation("%s accepts the selection %s of type %s" % (c['query'], wrong, dt))
        X.outcome(c['query'], str(dt))
    TYPES = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')
    X.bounds['integer_types'] = len(TYPES)
    X.each([dict(query=q, dtype=t) for q in (*Q.ROWS, 'vizLocal', 'vizGlobal') for t in TYPES if not X.quick or t.endswith('int8') or q not in ('vizLocal', 'vizGlobal')], inttypes, group='integer types')
