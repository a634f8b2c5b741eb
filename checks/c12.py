"""C12 dumped catalogues: every history of dumps over kinds, particle types, snapshots and folders on the real file system, and a complete family of round trips."""
import itertools, os, shutil
import numpy as np
import refmodel as rm, worlds, gworld, queries as Q
from dumps import R, HALOS, HALOS2, KL, KG, KINDS, close_dumped
from mc import Violation

META = {"assumptions": ["the query after a dump has the selection and settings of the dump (anything else: known findings)"]}

def listing(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


def explore(X):
    import cosmic_profiles as cp
    os.chdir(X.scratch)

    # A. histories
    u = worlds.set_units(cp, 'a')
    keep = os.path.join(X.scratch, 'keep')
    os.makedirs(keep, exist_ok=True)
    ws = {'dm': gworld.make(keep, u, HALOS, 'dm', keep=True, tag='dm'), 'stars': gworld.make(keep, u, HALOS2, 'stars', keep=True, tag='st')}
    F1, F2 = os.path.join(X.scratch, 'h', 'one'), 'h/relative/two'        # the second folder is given relative to the working directory

    def gad(t, snap, folder):
        cat, s, g = ws[t]
        return cp.DensShapeProfsGadget(s, g, t, snap, os.path.join(X.scratch, 'viz'), folder, RVIR_OR_R200='Rvir', MIN_NUMBER_PTCS=5, CENTER='com')

    def arr(t, snap, folder):
        c = ws[t][0]
        return cp.DensShapeProfs(c.xyz_in, c.m_in, [list(o) for o in c.idx_in], c.r200_in, c.L_in, snap, os.path.join(X.scratch, 'viz'), folder, MIN_NUMBER_PTCS=5, CENTER='mode')
    OBJ = {'dm1': (gad('dm', '001', F1), [0, 1, 2]), 'st1': (gad('stars', '001', F1), [1, 0]), 'dm2': (gad('dm', '002', F1), [2]), 'dmF': (gad('dm', '001', F2), [1, 2]),
           'ar1': (arr('stars', '001', F1), [0, 1]), 'ar2': (arr('dm', '0011', F1), [0])}
    fresh = {}

    def kinds(o):
        return KINDS if o[:2] in ('dm', 'st') else ('local', 'global')

    def query(o, k):
        obj, sel = OBJ[o]
        X.step()
        return getattr(obj, KINDS[k][0])(sel, katz_config=KINDS[k][2])

    def wipe():
        shutil.rmtree(os.path.join(X.scratch, 'h'), ignore_errors=True)
    wipe()
    for o in OBJ:
        for k in kinds(o):
            fresh[o, k] = np.array(query(o, k))
        fresh[o, 'ell'] = np.array(OBJ[o][0].estDensProfs(Q.R6, OBJ[o][1], spherical=False, katz_config=KL))

    def hist(c):
        for tail in itertools.product(c['alpha'], repeat=c['depth'] - len(c['head'])):
            ops = [tuple(x) for x in c['head']] + list(tail)
            wipe()
            done = set()
            for o, k in ops:
                obj, sel = OBJ[o]
                X.step()
                before = {f: open(os.path.join(X.scratch, 'h', f), 'rb').read() for f in listing(os.path.join(X.scratch, 'h'))} if c['files'] else {}
                getattr(obj, KINDS[k][1])(sel, katz_config=KINDS[k][2])
                done.add((o, k))
                if c['files']:
                    now = listing(os.path.join(X.scratch, 'h'))
                    for f, b in before.items():
                        if (o, k) not in [tuple(x) for x in ops[:ops.index((o, k))]] and open(os.path.join(X.scratch, 'h', f), 'rb').read() != b:
                            raise Violation("history %s: dumping %s of %s changed the file %s of an earlier dump" % (ops, k, o, f))
                    mc_ = obj.getMassesCenters(sel)
                    for f in now:
                        q = os.path.basename(f).split('_')[0]
                        if f not in before and q in ('d', 'q', 's') + tuple(Q.AX) and f.endswith('.txt'):       # the shapes themselves, in output units
                            t, v = np.loadtxt(os.path.join(X.scratch, 'h', f)).ravel(), np.asarray(fresh[o, k][q], float).ravel()
                            if t.shape != v.shape or not Q.same(t, v, 1.2e-7, 1e-12):
                                raise Violation("history %s: dumping %s of %s: file %s holds %s, in output units %s" % (ops, k, o, f, t, v))
                            X.ok()
                        if f in before or q not in ('m', 'centers') or (q == 'centers' and o[:2] == 'ar'):       # 'ar': mode centres, searched from another radius
                            continue
                        t, v = np.loadtxt(os.path.join(X.scratch, 'h', f)).ravel(), np.asarray(mc_['mass' if q == 'm' else 'centre'], float).ravel()
                        if t.shape != v.shape or not Q.same(t, v, 1.2e-7, 1e-300 if q == 'm' else 1e-9):
                            raise Violation("history %s: dumping %s of %s: file %s holds %s, in output units %s" % (ops, k, o, f, t, v))
                        X.ok()
                    for f in now:
                        if f.endswith('.tmp') or not f.endswith('.txt'):
                            raise Violation("history %s: left-over file %s" % (ops, f))
            for o in OBJ:
                for k in kinds(o):
                    got = query(o, k)
                    if (o, k) in done:
                        ok, what = close_dumped(got, fresh[o, k], u)
                    else:
                        ok, what = Q.close_rows(got, fresh[o, k], 1e-9), 'values'
                    if not ok:
                        raise Violation("after the dumps %s, %s shapes of %s: %s differ: %s, computed %s" % (ops, k, o, what, got, fresh[o, k]))
                    X.ok()
                if c['files'] and (o, 'local') in done:
                    e = OBJ[o][0].estDensProfs(Q.R6, OBJ[o][1], spherical=False, katz_config=KL)
                    if not rm.close(e, fresh[o, 'ell'], 1e-4, 1e-6 * np.nanmax(np.abs(fresh[o, 'ell']))):
                        raise Violation("after the dumps %s, ellipsoidal densities of %s: %s, computed %s" % (ops, o, e, fresh[o, 'ell']))
            X.state(tuple(sorted(done)))
            X.outcome(tuple(sorted(done)), tuple(listing(os.path.join(X.scratch, 'h'))))
    full = [(o, k) for o in OBJ for k in kinds(o)]
    cases = [dict(head=[a], alpha=full, depth=2, files=True) for a in full]
    core = [('dm1', 'local'), ('dm1', 'vlocal'), ('dm1', 'global'), ('st1', 'local'), ('dm2', 'vglobal'), ('dmF', 'local'), ('ar1', 'local'), ('ar2', 'global')]
    if X.quick:
        cases += [dict(head=[a], alpha=core, depth=3, files=False) for a in core]
    else:
        cases += [dict(head=[a, b], alpha=full, depth=3, files=False) for a in full for b in full]
        cases += [dict(head=[a, b], alpha=core, depth=4, files=False) for a in core for b in core]
    X.each(cases, hist, group='histories')
    X.bounds['dump histories'] = "all pairs of %d dumps (kinds x particle types x snapshots x folders), all triples of %d; every query after each history" % (len(full), 8 if X.quick else len(full))

    # B. round trips: object counts, radii, failures, units; file contents
    def trip(c):
        u = worlds.set_units(cp, c['units'])
        cat = worlds.make(u, [(c['sizes'][k], .5 + .1 * k, ((.8, .6, .4), (.9, .5, .45), (.5, .4, .3))[k % 3], ((.3, .6, .5), (.98, .02, .4), (.7, .7, .1))[k % 3], k + 1, R) for k in range(len(c['sizes']))], 10., c['how'])
        folder = os.path.join(X.scratch, 't', 'deep', 'er')
        shutil.rmtree(os.path.join(X.scratch, 't'), ignore_errors=True)
        o = worlds.build(cp, cat, X.scratch, snap='07', catd='t/deep/er')
        n = len(c['sizes'])
        sel = list(range(n))[::-1] if c['rev'] else list(range(n))
        kz = worlds.katz(np.linspace(.4, 1.2, c['nr']), 1e-2, c['wall'], c['imin'], c['red'], c['shell'])
        for kind in ('local', 'global'):
            get, dump = getattr(o, KINDS[kind][0]), getattr(o, KINDS[kind][1])
            ref = np.array(get(sel, katz_config=kz))
            dump(sel, katz_config=kz)
            X.step(3)
            fn = lambda q: os.path.join(folder, '%s_%s_07.txt' % (q, kind))
            m = {'d': ref['d'], 'q': ref['q'], 's': ref['s'], 'm': ref['m'] if 'm' in ref.dtype.names else None, 'centers': ref['centre'] if 'centre' in ref.dtype.names else None}
            mc_ = o.getMassesCenters(sel)
            m['m'], m['centers'] = mc_['mass'], mc_['centre']
            for q, v in m.items():
                if q == 'centers' and c['how'] == 'mode':         # the shape code starts its search for the mode from another radius
                    continue
                if not os.path.exists(fn(q)):
                    raise Violation("%s: dump wrote no file %s (found %s)" % (c, fn(q), listing(os.path.join(X.scratch, 't'))))
                t = np.loadtxt(fn(q)).ravel()
                v = np.asarray(v, float).ravel()
                if t.shape != v.shape or not Q.same(t, v, 1.2e-7, 1e-300 if q != 'centers' else 1e-9):
                    raise Violation("%s: file %s holds %s, computed in output units: %s" % (c, os.path.basename(fn(q)), t, v))
            for q in Q.AX:
                t = np.loadtxt(fn(q)).ravel()
                v = ref[q].ravel()
                if t.shape != v.shape or not Q.same(t, v, 1.2e-7, 1e-12):
                    raise Violation("%s: file %s holds %s, computed: %s" % (c, os.path.basename(fn(q)), t, v))
            o2 = worlds.build(cp, cat, X.scratch, snap='07', catd='t/deep/er') if c['again'] else o
            got = getattr(o2, KINDS[kind][0])(sel, katz_config=kz)
            ok, what = close_dumped(got, ref, u)
            if not ok:
                raise Violation("%s: %s shapes read back: %s differ: %s, dumped %s" % (c, kind, what, got, ref))
            mc2 = o2.getMassesCenters(sel)
            if not Q.same(np.asarray(mc2), np.asarray(mc_), 1e-12, 0):
                raise Violation("%s: masses and centres changed after the dump" % c)
            X.ok(2)
            X.outcome(kind, ref.shape, tuple(np.isnan(ref['q']).ravel()), c['nr'])
        X.state(tuple(sorted((k, str(v)) for k, v in c.items())))
    cases = []
    sizes = [s for n in (1, 2, 3) for s in itertools.product((4, 14, 40), repeat=n)]
    for si, s in enumerate(sizes):
        for nr in (1, 2, 3, 5):
            for wall, imin in ((60, 8), (2, 8), (60, 1)):
                k = len(cases)
                for un in ('int', 'a', 'b', 'c', 'd') if not X.quick else (('int', 'a', 'b', 'c', 'd')[k % 5],):
                    cases.append(dict(sizes=s, nr=nr, wall=wall, imin=imin, units=un, how='mode' if k % 3 == 1 else 'com', rev=k % 2 == 1, red=k // 2 % 2 == 1, shell=k // 3 % 2 == 1, again=k % 4 < 2))
    for k, (s, nr) in enumerate((((14, 40, 4) * 100, 2), ((14, 40), 70), ((40, 14, 4) * 4, 12), ((14,) * 130, 1))):       # many objects, many radii
        for un in ('int', 'b', 'd'):
            cases.append(dict(sizes=s, nr=nr, wall=60, imin=8, units=un, how='com', rev=un == 'b', red=k == 1, shell=k == 2, again=un != 'd'))
    X.each(cases, trip, group='round trips')
    X.bounds['round trips'] = "1-3 objects of 3 sizes (failing, partly failing, converged), 1-5 radii, 3 limits, weighting, shells, both centres, 5 unit systems"

    # C. recorded defects: the catalogue does not know for what it was computed
    def known(c):
        u = worlds.set_units(cp, 'a')
        shutil.rmtree(os.path.join(X.scratch, 't'), ignore_errors=True)
        cat = worlds.make(u, [(40, .5, (.8, .6, .4), (.3, .6, .5), 1, R), (33, .6, (.9, .5, .45), (.7, .2, .4), 2, None)], 10., 'com')
        o = worlds.build(cp, cat, X.scratch, snap='07', catd='t')
        get, dump = getattr(o, KINDS[c['kind']][0]), getattr(o, KINDS[c['kind']][1])
        k2 = worlds.katz([.3, .6, .9, 1.3], 1e-2, 60, 8, True) if c['kind'] == 'local' else worlds.katz([1.], 1e-2, 60, 8, False)
        kz = KINDS[c['kind']][2]
        X.step(3)
        if c['what'] == 'units':
            worlds.set_units(cp, 'a')
            ref = np.array(get([0, 1], katz_config=kz))
            dump([0, 1], katz_config=kz)
            cp.updateOutUnitSystem('kpc', 'Msun', 'km/s', .6774)
            got = get([0, 1], katz_config=kz)
            shutil.rmtree(os.path.join(X.scratch, 't'))
            ref = np.array(get([0, 1], katz_config=kz))
            wrong, text = not Q.close_rows(got, ref, 1e-5), "a catalogue dumped in one output unit system and read in another is misinterpreted (lengths, masses)"
        else:
            s1, s2 = {'selection': ([0], [1]), 'count': ([0, 1], [1]), 'settings': ([0, 1], [0, 1]), 'redump': ([0], [1])}[c['what']]
            q2 = k2 if c['what'] == 'settings' else kz
            ref = np.array(get(s2, katz_config=q2))
            dump(s1, katz_config=kz)
            if c['what'] == 'redump':
                dump(s2, katz_config=kz)
            try:
                got = np.asarray(get(s2, katz_config=q2))
                wrong = not Q.close_rows(got, ref, 1e-5)
            except ValueError:
                wrong = True
            text = {'selection': "a dumped catalogue answers for objects it does not hold (dump [0], query [1] returns object 0)", 'count': "a query for fewer objects than were dumped fails",
                    'settings': "a dumped catalogue answers queries with other settings", 'redump': "a second dump for another selection copies the first catalogue"}[c['what']]
        X.ok()
        if wrong:
            X.known_finding("%s/%s" % (c['what'], c['kind']), text + " [%s shapes]" % c['kind'])
    X.each([dict(kind=k, what=w) for k in ('local', 'global') for w in ('selection', 'count', 'settings', 'redump', 'units')], known, group='recorded defects')
